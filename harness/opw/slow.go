package opw

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sync"
	"time"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"sigs.k8s.io/controller-runtime/pkg/client"
	runtimeConfig "sigs.k8s.io/controller-runtime/pkg/config"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	"dcverif/hx"

	"github.com/l7mp/dcontroller/pkg/controller"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
)

// Fault decides about a write: it may sleep, and returns an error to make the write fail.
type Fault func(kind, key, verb string) error

// Client passes calls on to a client, with pauses and faults before the writes.
type Client struct {
	client.Client
	F Fault
}

type modifier interface {
	Modify(ctx context.Context, obj object.Object, f func(current object.Object) (object.Object, error)) error
}

func (c *Client) fault(o client.Object, verb string) error {
	return c.F(o.GetObjectKind().GroupVersionKind().Kind, o.GetNamespace()+"/"+o.GetName(), verb)
}

// Modify is an atomic change of a view object.
func (c *Client) Modify(ctx context.Context, o object.Object, f func(current object.Object) (object.Object, error)) error {
	if err := c.fault(o, "modify"); err != nil {
		return err
	}
	if m, ok := c.Client.(modifier); ok {
		return m.Modify(ctx, o, f)
	}
	// the client has no atomic operation
	cur := object.New()
	cur.SetGroupVersionKind(o.GroupVersionKind())
	err := c.Client.Get(ctx, client.ObjectKeyFromObject(o), cur)
	if err != nil && !apierrors.IsNotFound(err) {
		return err
	}
	found := err == nil
	if !found {
		cur = nil
	}
	n, err := f(cur)
	if err != nil {
		return err
	}
	if found {
		return c.Client.Update(ctx, n)
	}
	return c.Client.Create(ctx, n)
}

func (c *Client) Create(ctx context.Context, o client.Object, opts ...client.CreateOption) error {
	if err := c.fault(o, "create"); err != nil {
		return err
	}
	return c.Client.Create(ctx, o, opts...)
}

func (c *Client) Update(ctx context.Context, o client.Object, opts ...client.UpdateOption) error {
	if err := c.fault(o, "update"); err != nil {
		return err
	}
	return c.Client.Update(ctx, o, opts...)
}

func (c *Client) Patch(ctx context.Context, o client.Object, p client.Patch, opts ...client.PatchOption) error {
	if err := c.fault(o, "patch"); err != nil {
		return err
	}
	return c.Client.Patch(ctx, o, p, opts...)
}

func (c *Client) Delete(ctx context.Context, o client.Object, opts ...client.DeleteOption) error {
	if err := c.fault(o, "delete"); err != nil {
		return err
	}
	return c.Client.Delete(ctx, o, opts...)
}

// Pauses makes a fault function that only sleeps now and then.
func Pauses(seed int64, max time.Duration) Fault {
	var mu sync.Mutex
	r := rand.New(rand.NewSource(seed))
	return func(_, _, _ string) error {
		mu.Lock()
		d := time.Duration(0)
		if r.Intn(3) == 0 {
			d = time.Duration(r.Int63n(int64(max)))
		}
		mu.Unlock()
		if d > 0 {
			time.Sleep(d)
		}
		return nil
	}
}

type mgr struct {
	manager.Manager
	c client.Client
}

func (m *mgr) GetClient() client.Client { return m.c }

// Slow is an operator put together from its parts, with faults in its writes.
type Slow struct {
	manager.Manager
	Ctls   []controller.Controller
	cancel context.CancelFunc
	done   chan error
}

// NewSlow creates the controllers of an operator on a manager with the given faults.
func (w *World) NewSlow(name string, f Fault, ctls ...Ctl) *Slow {
	off := true
	m, err := manager.New(nil, manager.Options{
		NewCache:               manager.CacheInjector(w.Store),
		HealthProbeBindAddress: "0",
		Controller:             runtimeConfig.Controller{SkipNameValidation: &off},
		Metrics:                metricsserver.Options{BindAddress: "0"},
		Logger:                 hx.Log(),
	})
	if err != nil {
		w.C.Failf("cannot create manager: %v", err)
	}
	s := &Slow{Manager: &mgr{Manager: m, c: &Client{Client: m.GetClient(), F: f}}}
	for _, k := range ctls {
		s.Add(w, name, k)
	}
	return s
}

// Add adds a controller.
func (s *Slow) Add(w *World, name string, k Ctl) {
	x, err := controller.NewDeclarative(s.Manager, name, k.Spec(w.C), controller.Options{ErrorChan: w.errs})
	if err != nil {
		w.C.Failf("controller rejected: %v", err)
	}
	s.Ctls = append(s.Ctls, x)
}

// Start starts the controllers.
func (s *Slow) Start() {
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel, s.done = cancel, make(chan error, 1)
	go func() { s.done <- s.Manager.Start(ctx) }()
}

// Stop stops the controllers.
func (s *Slow) Stop() error {
	if s.cancel == nil {
		return nil
	}
	s.cancel()
	s.cancel = nil
	select {
	case err := <-s.done:
		return err
	case <-time.After(Limit):
		return fmt.Errorf("manager does not stop")
	}
}

// ErrFault is the injected error.
var ErrFault = errors.New("injected fault")
