// Package opw runs generated operators (controllers connected through views) on a shared view
// store and compares the target views with the result of the reference evaluation.
package opw

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	apiextensionsv1 "k8s.io/apiextensions-apiserver/pkg/apis/apiextensions/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/operator"
	"github.com/l7mp/dcontroller/pkg/predicate"
)

type M = gen.M
type L = gen.L

// Limit is how long the system may take to converge.
const Limit = 25 * time.Second

// Src is a source of a controller.
type Src struct {
	Op, Kind  string
	Namespace string // filter
	Selector  M      // filter, as JSON
	Always    bool   // has a predicate that accepts everything
	Type      opv1a1.SourceType
	Params    M
}

// Ctl is a controller.
type Ctl struct {
	Op, Name, Target string
	Pipe             gen.Pipe
	Src              []Src
	Patch            bool // the target is a patcher
}

// Spec converts the controller.
func (k Ctl) Spec(c *hx.Case) opv1a1.Controller {
	conf, err := gen.Pipeline(k.Pipe.Stages)
	if err != nil {
		c.Failf("pipeline rejected: %v", err)
	}
	r := opv1a1.Controller{Name: k.Name, Pipeline: conf, Target: opv1a1.Target{Resource: opv1a1.Resource{Kind: k.Target}}}
	if k.Patch {
		r.Target.Type = opv1a1.Patcher
	}
	for _, s := range k.Src {
		src := opv1a1.Source{Resource: opv1a1.Resource{Kind: s.Kind}, Type: s.Type}
		if s.Params != nil {
			src.Parameters = &apiextensionsv1.JSON{Raw: []byte(ref.Canon(s.Params))}
		}
		if s.Op != k.Op {
			g := viewv1a1.Group(s.Op)
			src.Group = &g
		}
		if s.Namespace != "" {
			src.Namespace = &s.Namespace
		}
		if s.Selector != nil {
			src.LabelSelector = &metav1.LabelSelector{}
			conv(s.Selector, src.LabelSelector)
		}
		if s.Always {
			src.Predicate = &predicate.Predicate{}
			conv(M{"Or": L{"LabelChanged", M{"Not": L{"LabelChanged"}}}}, src.Predicate)
		}
		r.Sources = append(r.Sources, src)
	}
	return r
}

func (k Ctl) String() string {
	ss := []string{}
	for _, s := range k.Src {
		x := string(s.Type) + s.Op + "/" + s.Kind
		if s.Namespace != "" {
			x += " in " + s.Namespace
		}
		if s.Selector != nil {
			x += " with " + ref.Canon(s.Selector)
		}
		ss = append(ss, x)
	}
	return fmt.Sprintf("controller %s of %s: %s -> %s -> %s", k.Name, k.Op, strings.Join(ss, ", "), ref.Canon(k.Pipe.Stages), k.Target)
}

func conv(from, to any) {
	if err := gen.Convert(from, to); err != nil {
		panic(err)
	}
}

// World is a shared view store with operators on it.
type World struct {
	C      *hx.Case
	Store  *cache.ViewCache
	Client client.WithWatch
	Ops    map[string]Runner
	errs   chan error
	mu     sync.Mutex
	Errs   []string
}

// Runner can be started and stopped.
type Runner interface {
	Start()
	Stop() error
}

// Op is a running (or not yet running) operator.
type Op struct {
	*operator.Operator
	cancel  context.CancelFunc
	done    chan error
	started bool
}

// New creates an empty world.
func New(c *hx.Case) *World {
	st := cache.NewViewCache(cache.CacheOptions{Logger: hx.Log()})
	w := &World{C: c, Store: st, Client: st.GetClient(), Ops: map[string]Runner{}, errs: make(chan error, 64)}
	go func() {
		for e := range w.errs {
			w.mu.Lock()
			if len(w.Errs) < 20 {
				w.Errs = append(w.Errs, e.Error())
			}
			w.mu.Unlock()
		}
	}()
	return w
}

// NewOp creates an operator with controllers.
func (w *World) NewOp(name string, ctls ...Ctl) *Op {
	o, err := operator.New(name, nil, operator.Options{Cache: w.Store, ErrorChannel: w.errs, Logger: hx.Log()})
	if err != nil {
		w.C.Failf("cannot create operator: %v", err)
	}
	op := &Op{Operator: o}
	for _, k := range ctls {
		if err := o.AddDeclarativeController(k.Spec(w.C)); err != nil {
			w.C.Failf("controller rejected: %v", err)
		}
	}
	w.Ops[name] = op
	return op
}

// Start starts an operator.
func (o *Op) Start() {
	ctx, cancel := context.WithCancel(context.Background())
	o.cancel, o.done, o.started = cancel, make(chan error, 1), true
	go func() { o.done <- o.Operator.Start(ctx) }()
}

// Stop stops an operator and waits until it has stopped.
func (o *Op) Stop() error {
	if !o.started {
		return nil
	}
	o.started = false
	o.cancel()
	select {
	case err := <-o.done:
		return err
	case <-time.After(Limit):
		return fmt.Errorf("operator does not stop")
	}
}

// Close stops everything.
func (w *World) Close() {
	for _, n := range w.Names() {
		if err := w.Ops[n].Stop(); err != nil {
			w.C.Failf("operator %s: %v", n, err)
		}
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	// the channel is left open: a late error must not crash the run
}

// Names are the names of the operators.
func (w *World) Names() []string {
	ks := []string{}
	for k := range w.Ops {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Errors are the errors reported so far.
func (w *World) Errors() string {
	w.mu.Lock()
	defer w.mu.Unlock()
	return strings.Join(w.Errs, "\n")
}

// List returns the content of a view.
func (w *World) List(op, kind string) map[string]M {
	l := cache.NewViewObjectList(op, kind)
	if err := w.Client.List(context.Background(), l); err != nil {
		w.C.Failf("cannot list %s: %v", kind, err)
	}
	r := map[string]M{}
	for i := range l.Items {
		o := &l.Items[i]
		m := ref.CopyMap(o.Object)
		if meta, ok := m["metadata"].(M); ok {
			delete(meta, "uid")
		}
		r[o.GetNamespace()+"/"+o.GetName()] = m
	}
	return r
}

// Put writes an object.
func (w *World) Put(m M) error {
	o := gen.Obj(ref.CopyMap(m))
	if err := w.Client.Create(context.Background(), o); err != nil {
		return err
	}
	return nil
}

// Del deletes an object.
func (w *World) Del(m M) error {
	return w.Client.Delete(context.Background(), gen.Obj(ref.CopyMap(m)))
}

// Matches tells whether the source delivers the object.
func (s Src) Matches(m M) bool {
	meta, _ := m["metadata"].(M)
	if ns, _ := meta["namespace"].(string); s.Namespace != "" && ns != s.Namespace {
		return false
	}
	if s.Selector != nil {
		lab, _ := meta["labels"].(M)
		ok, err := ref.MatchSelector(s.Selector, lab)
		if err != nil {
			panic(err)
		}
		return ok
	}
	return true
}

// Content are the documents a source contributes, given the content of its view.
func (s Src) Content(view map[string]M) ref.Source {
	r := ref.Source{Kind: s.Kind}
	ks := []string{}
	for k := range view {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		if s.Matches(view[k]) {
			r.Docs = append(r.Docs, ref.CopyMap(view[k]))
		}
	}
	return r
}

// Required is what the target of a controller must hold, given the present content of its sources.
func (w *World) Required(k Ctl) gen.Want {
	srcs := []ref.Source{}
	for _, s := range k.Src {
		if s.Type == opv1a1.Periodic {
			continue
		}
		srcs = append(srcs, s.Content(w.List(s.Op, s.Kind)))
	}
	bag, err := ref.RunPipeline(k.Pipe.Stages, srcs)
	if err != nil {
		w.C.Fatalf("harness: reference evaluation failed: %v", err)
	}
	return gen.Expect(bag, schema.GroupVersionKind{Group: viewv1a1.Group(k.Op), Version: viewv1a1.Version, Kind: k.Target})
}

// strip drops what updating targets do not write; labels and annotations are given separately.
func strip(m M) (M, M) {
	m = ref.CopyMap(m)
	meta, _ := m["metadata"].(M)
	keep := M{"name": meta["name"]}
	if ns, _ := meta["namespace"].(string); ns != "" {
		keep["namespace"] = ns
	}
	m["metadata"] = keep
	extra := M{}
	for _, f := range []string{"labels", "annotations"} {
		if x, ok := meta[f].(M); ok {
			for k, v := range x {
				extra[f+"/"+k] = v
			}
		}
	}
	return m, extra
}

// Compare compares the content of a target view with the required content. Labels and annotations
// of earlier results may remain: updating targets never remove them.
func Compare(want gen.Want, got map[string]M, sortLists bool) string {
	g := gen.Target{}
	labels := map[string]M{}
	for k, m := range got {
		g[k], labels[k] = strip(m)
	}
	w := gen.Want{}
	for k, ms := range want {
		ok := false
		for _, m := range ms {
			x, lab := strip(m)
			w[k] = append(w[k], x)
			fits := true
			for l, v := range lab {
				if labels[k][l] != v {
					fits = false
				}
			}
			ok = ok || fits
		}
		if _, exists := got[k]; exists && !ok {
			return fmt.Sprintf("labels or annotations of target object %s: want %s, got %s", k, ref.Canon(ms[0]["metadata"]), ref.Canon(got[k]["metadata"]))
		}
	}
	return gen.Diff(w, g, sortLists)
}

// Check compares the target of a controller with what is required.
func (w *World) Check(k Ctl) string {
	if d := Compare(w.Required(k), w.List(k.Op, k.Target), k.Pipe.Gathered); d != "" {
		return fmt.Sprintf("target of controller %s/%s: %s", k.Op, k.Name, d)
	}
	return ""
}

// Converged waits until all targets are right and still are a while later. (A target may be right by
// chance while changes are still on their way.)
func (w *World) Converged(ks []Ctl, stay time.Duration) string {
	all := func() string {
		for _, k := range ks {
			if d := w.Check(k); d != "" {
				return d
			}
		}
		return ""
	}
	return hx.Eventually(Limit, func() string {
		if d := all(); d != "" {
			return d
		}
		time.Sleep(stay)
		return all()
	})
}

// Obj is a helper to make a view object.
func Obj(op, kind string) object.Object { return object.NewViewObject(op, kind) }
