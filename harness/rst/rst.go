// Package rst runs the API server on a view store of its own and talks to it over HTTP.
package rst

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"strings"
	"sync"
	"time"

	"dcverif/gen"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/klog/v2"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/apiserver"
	"github.com/l7mp/dcontroller/pkg/cache"
)

type M = gen.M
type L = gen.L

func init() { klog.SetLogger(logr.Discard()) }

// Server is a running API server and its store.
type Server struct {
	S      *apiserver.APIServer
	API    *cache.API
	Base   string
	HTTP   *http.Client
	cancel context.CancelFunc
	done   chan error
}

// New creates a server with its store.
func New(edit func(cfg *apiserver.Config)) (*Server, error) {
	api, err := cache.NewAPI(nil, cache.APIOptions{CacheOptions: cache.CacheOptions{Logger: logr.Discard()}})
	if err != nil {
		return nil, err
	}
	s := &Server{API: api}
	for i := 0; ; i++ {
		cfg, err := apiserver.NewDefaultConfig("127.0.0.1", 0, api.Client, true, false, logr.Discard())
		if err != nil {
			return nil, err
		}
		if edit != nil {
			edit(&cfg)
		}
		// the server picks a port for its unused TLS endpoint: it may be taken
		if s.S, err = apiserver.NewAPIServer(cfg); err == nil {
			break
		} else if i > 20 {
			return nil, err
		}
	}
	s.Base = "http://" + s.S.GetInsecureServerAddress()
	s.HTTP = &http.Client{Transport: &http.Transport{MaxIdleConnsPerHost: 64, DisableCompression: true}}
	return s, nil
}

// Start starts the server and waits until it answers.
func (s *Server) Start() error {
	ctx, cancel := context.WithCancel(context.Background())
	s.cancel, s.done = cancel, make(chan error, 1)
	go func() { s.done <- s.S.Start(ctx) }()
	var err error
	for i := 0; i < 600; i++ {
		var r *http.Response
		if r, err = s.HTTP.Get(s.Base + "/version"); err == nil {
			io.Copy(io.Discard, r.Body) //nolint:errcheck
			r.Body.Close()
			return nil
		}
		time.Sleep(50 * time.Millisecond)
	}
	return err
}

// Stop stops the server.
func (s *Server) Stop() error {
	s.cancel()
	select {
	case err := <-s.done:
		return err
	case <-time.After(60 * time.Second):
		return fmt.Errorf("the server does not stop")
	}
}

var (
	once   sync.Once
	shared *Server
	failed error
	groups int
)

// Shared returns the server shared by the cases of the process.
func Shared() (*Server, error) {
	once.Do(func() {
		if shared, failed = New(nil); failed == nil {
			failed = shared.Start()
		}
	})
	return shared, failed
}

// Operator returns an operator name that was not used before in the process.
func Operator() string {
	groups++
	return fmt.Sprintf("op%d", groups)
}

// Path is the path of the objects of a view (ns "" for all namespaces) or of an object.
func Path(g schema.GroupVersionKind, ns string, name ...string) string {
	p := "/apis/" + g.Group + "/" + g.Version
	if ns != "" {
		p += "/namespaces/" + ns
	}
	p += "/" + strings.ToLower(g.Kind)
	for _, n := range name {
		p += "/" + url.PathEscape(n)
	}
	return p
}

// Kind is a view type of an operator.
func Kind(op, kind string) schema.GroupVersionKind { return viewv1a1.GroupVersionKind(op, kind) }

// Req is a request.
type Req struct {
	Method, Path string
	Query        url.Values
	Body         any
	Type, Accept string
	Token        string
}

func (r Req) String() string {
	p := r.Path
	if len(r.Query) > 0 {
		q, _ := url.QueryUnescape(r.Query.Encode())
		p += "?" + q
	}
	b := ""
	if r.Body != nil {
		b = " " + jsonOf(r.Body)
	}
	if r.Type != "" {
		b += " (" + r.Type + ")"
	}
	return r.Method + " " + p + b
}

func jsonOf(v any) string {
	if s, ok := v.(string); ok {
		return s
	}
	b, _ := json.Marshal(v)
	return string(b)
}

func (s *Server) request(ctx context.Context, r Req) (*http.Response, error) {
	u := s.Base + r.Path
	if len(r.Query) > 0 {
		u += "?" + r.Query.Encode()
	}
	var body io.Reader
	if r.Body != nil {
		body = bytes.NewBufferString(jsonOf(r.Body))
	}
	req, err := http.NewRequestWithContext(ctx, r.Method, u, body)
	if err != nil {
		return nil, err
	}
	if r.Type == "" {
		r.Type = "application/json"
	}
	if r.Body != nil {
		req.Header.Set("Content-Type", r.Type)
	}
	if r.Accept == "" {
		r.Accept = "application/json"
	}
	req.Header.Set("Accept", r.Accept)
	if r.Token != "" {
		req.Header.Set("Authorization", r.Token)
	}
	return s.HTTP.Do(req)
}

// Do sends a request and returns the status and the decoded body (nil if it is not an object).
func (s *Server) Do(r Req) (int, M, error) {
	ctx, cancel := context.WithTimeout(context.Background(), 60*time.Second)
	defer cancel()
	resp, err := s.request(ctx, r)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, nil, err
	}
	m, _ := Decode(b)
	return resp.StatusCode, m, nil
}

// Decode decodes a JSON object, keeping integers.
func Decode(b []byte) (M, error) {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	m := M{}
	if err := d.Decode(&m); err != nil {
		return nil, err
	}
	return ints(m).(M), nil
}

func ints(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k, e := range x {
			x[k] = ints(e)
		}
	case []any:
		for i, e := range x {
			x[i] = ints(e)
		}
	case json.Number:
		if i, err := x.Int64(); err == nil {
			return i
		}
		f, _ := x.Float64()
		return f
	}
	return v
}

// Event is an event of a watch.
type Event struct {
	Type string
	Obj  M
}

// Watch is an open watch.
type Watch struct {
	mu     sync.Mutex
	events []Event
	ended  bool
	cancel context.CancelFunc
	done   chan struct{}
}

// Watch opens a watch. It returns a status other than 200 if the server refuses.
func (s *Server) Watch(r Req) (*Watch, int, error) {
	if r.Query == nil {
		r.Query = url.Values{}
	}
	r.Query.Set("watch", "true")
	ctx, cancel := context.WithCancel(context.Background())
	resp, err := s.request(ctx, r)
	if err != nil {
		cancel()
		return nil, 0, err
	}
	if resp.StatusCode != 200 {
		cancel()
		resp.Body.Close()
		return nil, resp.StatusCode, nil
	}
	w := &Watch{cancel: cancel, done: make(chan struct{})}
	go func() {
		defer close(w.done)
		defer resp.Body.Close()
		d := json.NewDecoder(resp.Body)
		d.UseNumber()
		for {
			e := struct {
				Type   string `json:"type"`
				Object M      `json:"object"`
			}{}
			if err := d.Decode(&e); err != nil {
				w.mu.Lock()
				w.ended = true
				w.mu.Unlock()
				return
			}
			w.mu.Lock()
			w.events = append(w.events, Event{e.Type, ints(e.Object).(M)})
			w.mu.Unlock()
		}
	}()
	return w, 200, nil
}

// Events returns the events so far and whether the watch has ended.
func (w *Watch) Events() ([]Event, bool) {
	w.mu.Lock()
	defer w.mu.Unlock()
	return append([]Event{}, w.events...), w.ended
}

// Close closes the watch.
func (w *Watch) Close() { w.cancel(); <-w.done }
