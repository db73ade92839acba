// Package vw drives the view store with readers, writers and subscribers of all kinds and keeps
// a model of what each subscriber must see.
package vw

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	"k8s.io/apimachinery/pkg/watch"
	toolscache "k8s.io/client-go/tools/cache"
	crcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

type M = gen.M

var Ctx = context.Background()

// GVKs are the view types in use: equal kinds of different operators and different kinds.
var GVKs = []schema.GroupVersionKind{
	viewv1a1.GroupVersionKind("op", "V"), viewv1a1.GroupVersionKind("op2", "V"), viewv1a1.GroupVersionKind("op", "W"),
}

// Store is what all view caches offer.
type Store interface {
	crcache.Cache
	GetClient() client.WithWatch
	Add(obj object.Object) error
	Update(oldObj, newObj object.Object) error
	Delete(obj object.Object) error
	Watch(ctx context.Context, list client.ObjectList, opts ...client.ListOption) (watch.Interface, error)
}

type World struct {
	C       *hx.Case
	Caches  []Store // the shared one, then the attached ones
	Names   []string
	Clients []client.WithWatch
	Model   map[string]M // gvk|namespace/name -> content
	Subs    []*Sub
	Dead    map[int]bool // caches that have been stopped
	cancel  map[int]context.CancelFunc
	done    map[int]chan struct{}
	nsub    int
}

func New(c *hx.Case, attached int) *World {
	w := &World{C: c, Model: map[string]M{}, Dead: map[int]bool{}, cancel: map[int]context.CancelFunc{}, done: map[int]chan struct{}{}}
	vc := cache.NewViewCache(cache.CacheOptions{})
	w.Caches, w.Names = []Store{vc}, []string{"shared"}
	for i := 1; i <= attached; i++ {
		w.Caches = append(w.Caches, cache.NewDelegatingViewCache(vc, cache.CacheOptions{}))
		w.Names = append(w.Names, fmt.Sprintf("attached%d", i))
	}
	for _, s := range w.Caches {
		w.Clients = append(w.Clients, s.GetClient())
	}
	return w
}

// Attach adds one more cache on the shared storage.
func (w *World) Attach() {
	s := cache.NewDelegatingViewCache(w.Caches[0].(*cache.ViewCache), cache.CacheOptions{})
	w.Caches = append(w.Caches, s)
	w.Names = append(w.Names, fmt.Sprintf("attached%d", len(w.Caches)-1))
	w.Clients = append(w.Clients, s.GetClient())
}

// Start runs a cache in the background.
func (w *World) Start(i int) {
	ctx, cancel := context.WithCancel(Ctx)
	done := make(chan struct{})
	w.cancel[i], w.done[i] = cancel, done
	go func() {
		_ = w.Caches[i].Start(ctx)
		close(done)
	}()
}

func (w *World) Started(i int) bool { return w.cancel[i] != nil }

// Running returns the attached cache with the most subscriptions among those that run.
func (w *World) Running() int {
	best, n := 0, -1
	for i := 1; i < len(w.Caches); i++ {
		if !w.Started(i) {
			continue
		}
		k := 0
		for _, s := range w.Subs {
			if s.Alive && s.Via == i {
				k++
			}
		}
		if k > n {
			best, n = i, k
		}
	}
	return best
}

// Stop ends a cache that was started and waits until it is down.
func (w *World) Stop(i int) {
	w.cancel[i]()
	delete(w.cancel, i)
	select {
	case <-w.done[i]:
	case <-time.After(20 * time.Second):
		w.C.Failf("cache %s does not stop", w.Names[i])
	}
	w.Dead[i] = true
	for _, s := range w.Subs {
		if s.Via == i {
			s.Alive = false
		}
	}
}

// Remove drops the informer of a cache for a type; its handlers are not told anything any more.
func (w *World) Remove(g schema.GroupVersionKind, i int) {
	o := object.New()
	o.SetGroupVersionKind(g)
	var err error
	w.C.NoPanic("RemoveInformer", func() { err = w.Caches[i].RemoveInformer(Ctx, o) })
	if err != nil {
		w.C.Failf("removing the informer of %s at %s: %v", g, w.Names[i], err)
	}
	for _, s := range w.Subs {
		if s.Informer && s.Via == i && s.GVK == g {
			s.Alive = false
		}
	}
}

// Living draws a cache that has not been stopped.
func (w *World) Living() int {
	l := []int{}
	for i := range w.Caches {
		if !w.Dead[i] {
			l = append(l, i)
		}
	}
	return gen.Pick(w.C.T, "via", l...)
}

// Get reads an object through a cache or its client and compares it with the model.
func (w *World) Get(g schema.GroupVersionKind, ns, name string, via int, cl bool) {
	r := client.Reader(w.Caches[via])
	if cl {
		r = w.Clients[via]
	}
	o := object.New()
	o.SetGroupVersionKind(g)
	err := r.Get(Ctx, client.ObjectKey{Namespace: ns, Name: name}, o)
	m, exists := w.Model[Key(g, ns, name)]
	switch {
	case exists && err != nil:
		w.C.Failf("%s: reading %s: %v", w.Names[via], Key(g, ns, name), err)
	case exists && Norm(o) != ref.JSON(m):
		w.C.Failf("%s reads %s as %s, want %s", w.Names[via], Key(g, ns, name), Norm(o), ref.JSON(m))
	case !exists && !apierrors.IsNotFound(err):
		w.C.Failf("%s reads the absent %s: %v %s", w.Names[via], Key(g, ns, name), err, Norm(o))
	}
}

// Close ends everything.
func (w *World) Close() {
	for i := range w.cancel {
		w.cancel[i]()
	}
	for _, s := range w.Subs {
		if s.cancel != nil {
			s.cancel()
		}
	}
}

func Key(g schema.GroupVersionKind, ns, name string) string {
	return g.Group + ":" + g.Kind + "|" + ns + "/" + name
}

func GVKKey(g schema.GroupVersionKind) string { return g.Group + ":" + g.Kind + "|" }

// Content draws a small object.
func Content(t gen.T, g schema.GroupVersionKind, ns, name string) M {
	meta := M{"name": name, "namespace": ns}
	l := M{}
	for _, k := range []string{"app", "tier"} {
		if gen.Prob(t, 8, "label") {
			l[k] = gen.Pick(t, "value", "x", "y")
		}
	}
	if len(l) > 0 {
		meta["labels"] = l
	}
	m := M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": meta}
	if gen.Prob(t, 14, "spec") {
		m["spec"] = M{"a": gen.Pick[any](t, "a", int64(0), int64(1), "x"), "l": gen.L{M{"x": int64(1)}, "s"}}
	}
	if gen.Prob(t, 4, "status") {
		m["status"] = status(t)
	}
	return m
}

func status(t gen.T) M {
	return gen.Pick(t, "status", M{"phase": "Ready"}, M{"phase": "Failed"}, M{"phase": "Ready", "ready": true}, M{"phase": "Failed", "ready": false}, M{"ready": gen.Bool(t, "ready")})
}

func Obj(m M) object.Object { return &unstructured.Unstructured{Object: ref.CopyMap(m)} }

// Norm is the content of an object without its UID.
func Norm(o object.Object) string {
	m := ref.CopyMap(o.UnstructuredContent())
	if meta, ok := m["metadata"].(M); ok {
		delete(meta, "uid")
	}
	return ref.JSON(m)
}

func ObjKey(o object.Object) string { return Key(o.GroupVersionKind(), o.GetNamespace(), o.GetName()) }

// Ev is an event as seen by a subscriber.
type Ev struct {
	Type, Key string
	Old, New  string // contents
	AnyNew    bool   // the content of a deleted object may be the last matching one or the new one
	Entry     bool   // an update that makes an object match may be reported as addition or update
}

func (e Ev) String() string {
	if e.Old != "" {
		return fmt.Sprintf("%s %s from %s to %s", e.Type, e.Key, e.Old, e.New)
	}
	return fmt.Sprintf("%s %s %s", e.Type, e.Key, e.New)
}

// Sub is a watcher or an event handler.
type Sub struct {
	Name     string
	GVK      schema.GroupVersionKind
	Via      int
	Informer bool
	Alive    bool
	Match    func(M) bool
	// Restricted watchers may get an update for an object that starts to match
	Restricted bool

	mu       sync.Mutex
	got      []Ev
	Expected []Ev
	next     int
	bad      string

	inf    crcache.Informer
	reg    toolscache.ResourceEventHandlerRegistration
	w      watch.Interface
	cancel context.CancelFunc
	closed bool
}

func (s *Sub) add(e Ev) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.got = append(s.got, e)
}

// Got returns the events received so far.
func (s *Sub) Got() []Ev {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Ev{}, s.got...)
}

func (s *Sub) wrong(f string, a ...any) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.bad == "" {
		s.bad = fmt.Sprintf(f, a...)
	}
}

// Bad returns what was wrong with an event by itself.
func (s *Sub) Bad() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.bad
}

func (s *Sub) take(typ string, old, o any, initial bool) {
	e := Ev{Type: typ}
	no, ok := o.(object.Object)
	if !ok {
		s.wrong("%s: event object of type %T", s.Name, o)
		return
	}
	e.Key, e.New = ObjKey(no), Norm(no)
	if no.GetUID() == "" {
		s.wrong("%s: object without UID in a %s event", s.Name, typ)
	}
	if initial {
		e.Type = "initial"
	}
	if typ == "update" && s.Informer {
		oo, ok := old.(object.Object)
		if !ok || oo == nil {
			s.wrong("%s: update event without the previous object", s.Name)
			return
		}
		e.Old = Norm(oo)
		if oo.GetUID() != no.GetUID() {
			s.wrong("%s: the objects of an update event of %s have different UIDs %q, %q", s.Name, e.Key, oo.GetUID(), no.GetUID())
		}
		gen.Scribble(oo.Object)
	}
	s.add(e)
	gen.Scribble(no.Object) // subscribers own what they get
}

// Options draws list options of a watch and what they stand for.
func Options(t gen.T) ([]client.ListOption, string, func(M) bool) {
	var opts []client.ListOption
	lo := &client.ListOptions{}
	desc := []string{}
	conds := []func(M) bool{}
	if gen.Prob(t, 7, "ns") {
		ns := gen.Pick(t, "inns", "ns1", "ns2")
		opts, lo.Namespace = append(opts, client.InNamespace(ns)), ns
		desc = append(desc, "namespace "+ns)
		conds = append(conds, func(m M) bool { return m["metadata"].(M)["namespace"] == ns })
	}
	if gen.Prob(t, 10, "sel") {
		var o client.ListOption
		var sel labels.Selector
		switch gen.Int(t, 0, 4, "selkind") {
		case 0:
			o, sel = client.MatchingLabels{"app": "x"}, labels.SelectorFromSet(labels.Set{"app": "x"})
		case 1:
			sel, _ = labels.Parse("tier!=y")
			o = client.MatchingLabelsSelector{Selector: sel}
		case 2:
			sel, _ = labels.Parse("app")
			o = client.HasLabels{"app"}
		case 3:
			sel, _ = labels.Parse("app in (x, z), tier notin (q)")
			o = client.MatchingLabelsSelector{Selector: sel}
		case 4:
			o, sel = client.MatchingLabels{"app": "x", "tier": "x"}, labels.SelectorFromSet(labels.Set{"app": "x", "tier": "x"})
		}
		opts, lo.LabelSelector = append(opts, o), sel
		desc = append(desc, "labels "+sel.String())
		conds = append(conds, func(m M) bool {
			set := labels.Set{}
			l, _ := m["metadata"].(M)["labels"].(M)
			for k, v := range l {
				set[k] = v.(string)
			}
			return sel.Matches(set)
		})
	}
	if gen.Prob(t, 3, "fields") {
		sel, match := gen.Fields(t, "a", "b", "sentinel-ready")
		opts, lo.FieldSelector = append(opts, client.MatchingFieldsSelector{Selector: sel}), sel
		desc = append(desc, "fields "+sel.String())
		conds = append(conds, match)
	}
	if gen.Prob(t, 5, "packed") {
		opts = []client.ListOption{lo}
		desc = append(desc, "(one options object)")
	}
	return opts, strings.Join(desc, ", "), func(m M) bool {
		for _, f := range conds {
			if !f(m) {
				return false
			}
		}
		return true
	}
}

// Initial adds the events that a new subscriber starts with.
func (w *World) initial(s *Sub) {
	for _, k := range w.Keys(s.GVK) {
		if m := w.Model[k]; s.Match(m) {
			s.Expected = append(s.Expected, Ev{Type: "initial", Key: k, New: ref.JSON(m)})
		}
	}
}

// Keys lists the objects of a type.
func (w *World) Keys(g schema.GroupVersionKind) []string {
	ks := []string{}
	for k := range w.Model {
		if strings.HasPrefix(k, GVKKey(g)) {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	return ks
}

// AddHandler attaches an event handler to the informer of a cache.
func (w *World) AddHandler(g schema.GroupVersionKind, via int) *Sub {
	w.nsub++
	s := &Sub{Name: fmt.Sprintf("handler%d of %s at %s", w.nsub, g.GroupKind(), w.Names[via]), GVK: g, Via: via, Informer: true, Alive: true, Match: func(M) bool { return true }}
	var err error
	w.C.NoPanic("GetInformer", func() {
		if w.nsub%2 == 0 {
			s.inf, err = w.Caches[via].GetInformerForKind(Ctx, g)
		} else {
			o := object.New()
			o.SetGroupVersionKind(g)
			s.inf, err = w.Caches[via].GetInformer(Ctx, o)
		}
	})
	if err != nil {
		w.C.Failf("getting the informer: %v", err)
	}
	h := toolscache.ResourceEventHandlerDetailedFuncs{
		AddFunc:    func(o any, init bool) { s.take("add", nil, o, init) },
		UpdateFunc: func(old, o any) { s.take("update", old, o, false) },
		DeleteFunc: func(o any) { s.take("delete", nil, o, false) },
	}
	w.initial(s)
	w.C.NoPanic("AddEventHandler", func() { s.reg, err = s.inf.AddEventHandler(h) })
	if err != nil {
		w.C.Failf("adding a handler: %v", err)
	}
	w.Subs = append(w.Subs, s)
	return s
}

// AddWatch starts a watch through a cache or its client.
func (w *World) AddWatch(g schema.GroupVersionKind, via int, opts []client.ListOption, desc string, match func(M) bool, asClient bool) *Sub {
	w.nsub++
	s := &Sub{Name: fmt.Sprintf("watcher%d of %s at %s (%s)", w.nsub, g.GroupKind(), w.Names[via], desc), GVK: g, Via: via, Alive: true, Match: match, Restricted: len(opts) > 0}
	list := &unstructured.UnstructuredList{}
	list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
	w.initial(s)
	ctx, cancel := context.WithCancel(Ctx)
	s.cancel = cancel
	var err error
	w.C.NoPanic("Watch", func() {
		if asClient {
			s.w, err = w.Clients[via].Watch(ctx, list, opts...)
		} else {
			s.w, err = w.Caches[via].Watch(ctx, list, opts...)
		}
	})
	if err != nil {
		cancel()
		w.C.Failf("watching: %v", err)
	}
	go func() {
		for e := range s.w.ResultChan() {
			switch e.Type {
			case watch.Added:
				s.take("add", nil, e.Object, false)
			case watch.Modified:
				s.take("update", nil, e.Object, false)
			case watch.Deleted:
				s.take("delete", nil, e.Object, false)
			default:
				s.wrong("%s: event of type %s", s.Name, e.Type)
			}
		}
		s.mu.Lock()
		s.closed = true
		s.mu.Unlock()
	}()
	w.Subs = append(w.Subs, s)
	return s
}

// Detach removes a handler or stops a watch.
func (w *World) Detach(s *Sub, byCtx bool) {
	s.Alive = false
	if s.Informer {
		var err error
		w.C.NoPanic("RemoveEventHandler", func() { err = s.inf.RemoveEventHandler(s.reg) })
		if err != nil {
			w.C.Failf("removing a handler: %v", err)
		}
		return
	}
	if byCtx {
		s.cancel()
	} else {
		s.w.Stop()
	}
	if d := hx.Eventually(20*time.Second, func() string {
		s.mu.Lock()
		defer s.mu.Unlock()
		if !s.closed {
			return "open"
		}
		return ""
	}); d != "" {
		w.C.Failf("%s: the event channel stays open after stopping the watch", s.Name)
	}
}

// change records what all subscribers must see.
func (w *World) change(g schema.GroupVersionKind, key string, old, nw M) {
	oldJS, newJS := "", ""
	if old != nil {
		oldJS = ref.JSON(old)
	}
	if nw != nil {
		newJS = ref.JSON(nw)
	}
	if oldJS == newJS {
		return
	}
	for _, s := range w.Subs {
		if !s.Alive || s.GVK != g {
			continue
		}
		was, is := old != nil && s.Match(old), nw != nil && s.Match(nw)
		switch {
		case !was && is && old != nil: // starts to match
			s.Expected = append(s.Expected, Ev{Type: "add", Key: key, New: newJS, Entry: true})
		case !was && is:
			s.Expected = append(s.Expected, Ev{Type: "add", Key: key, New: newJS})
		case was && is:
			e := Ev{Type: "update", Key: key, New: newJS}
			if s.Informer {
				e.Old = oldJS
			}
			s.Expected = append(s.Expected, e)
		case was && nw == nil:
			s.Expected = append(s.Expected, Ev{Type: "delete", Key: key, New: oldJS})
		case was:
			s.Expected = append(s.Expected, Ev{Type: "delete", Key: key, New: oldJS, AnyNew: true})
		}
	}
}

// Write performs one random change through a random surface; it tells whether the content changed.
func (w *World) Write(g schema.GroupVersionKind) bool {
	t := w.C.T
	ns, name := gen.Pick(t, "ns", "ns1", "ns2"), gen.Pick(t, "name", "a", "b", "c")
	if ks := w.Keys(g); len(ks) > 0 && gen.Prob(t, 9, "existing") {
		p := strings.Split(strings.SplitN(gen.Pick(t, "which", ks...), "|", 2)[1], "/")
		ns, name = p[0], p[1]
	}
	key := Key(g, ns, name)
	old, exists := w.Model[key]
	via := w.Living()
	cl, st := w.Clients[via], w.Caches[via]
	m := Content(t, g, ns, name)
	if exists && gen.Prob(t, 3, "equal") {
		m = ref.CopyMap(old)
	}
	var err error
	what, absent := "", false
	switch gen.Int(t, 0, 9, "op") {
	case 0, 1:
		what = "create"
		if !exists && gen.Bool(t, "rawadd") {
			w.C.Step("%s: store add %s", w.Names[via], ref.JSON(m))
			err = st.Add(Obj(m))
			break
		}
		w.C.Step("%s: create %s", w.Names[via], ref.JSON(m))
		err = cl.Create(Ctx, Obj(m))
	case 2, 3, 4:
		w.C.Step("%s: update %s", w.Names[via], ref.JSON(m))
		what, absent = "update", !exists
		err = cl.Update(Ctx, Obj(m))
	case 5:
		if !exists {
			return false
		}
		prev := Obj(old)
		if gen.Prob(t, 5, "stale") {
			prev = Obj(Content(t, g, ns, name))
			if gen.Bool(t, "staleequal") {
				prev = Obj(m)
			}
		}
		w.C.Step("%s: store update %s given %s as the previous one", w.Names[via], ref.JSON(m), ref.JSON(prev.Object))
		what = "store update"
		err = st.Update(prev, Obj(m))
	case 6:
		p := M{"spec": M{"a": gen.Pick[any](t, "pa", int64(0), int64(1), nil)}, "metadata": M{"labels": M{"app": gen.Pick[any](t, "pl", "x", "y")}}}
		if gen.Bool(t, "nolabel") {
			delete(p, "metadata")
		}
		w.C.Step("%s: patch %s with %s", w.Names[via], key, ref.JSON(p))
		what, absent = "patch", !exists
		err = cl.Patch(Ctx, Obj(m), client.RawPatch(types.MergePatchType, []byte(ref.JSON(p))))
		if exists {
			m = ref.Patch(old, p).(M)
		}
	case 7:
		m["status"] = status(t)
		w.C.Step("%s: status update %s to %s", w.Names[via], key, ref.JSON(m["status"]))
		what, absent = "status update", !exists
		err = cl.Status().Update(Ctx, Obj(m))
		if exists {
			n := ref.CopyMap(old)
			n["status"] = m["status"]
			m = n
		}
	default:
		w.C.Step("%s: delete %s", w.Names[via], key)
		what, absent = "delete", !exists
		if gen.Bool(t, "raw") {
			err = st.Delete(Obj(m))
		} else {
			err = cl.Delete(Ctx, Obj(m))
		}
		m = nil
	}
	if absent {
		if err == nil {
			w.C.Failf("%s of the absent %s succeeds", what, key)
		}
		return false
	}
	if err != nil {
		w.C.Failf("%s: %v", what, err)
	}
	if m == nil {
		delete(w.Model, key)
	} else {
		w.Model[key] = m
	}
	w.change(g, key, old, m)
	return old == nil || m == nil || ref.JSON(old) != ref.JSON(m)
}

// Put creates an object in the store and the model.
func (w *World) Put(g schema.GroupVersionKind, ns, name string, m M) {
	key := Key(g, ns, name)
	w.C.Step("create %s", ref.JSON(m))
	if err := w.Clients[0].Create(Ctx, Obj(m)); err != nil {
		w.C.Failf("create: %v", err)
	}
	old := w.Model[key]
	w.Model[key] = m
	w.change(g, key, old, m)
}

// Sentinels are objects that (almost) every watch selects; they flush out superfluous events.
func (w *World) Sentinels() {
	for _, g := range GVKs {
		for _, ns := range []string{"ns1", "ns2"} {
			for _, st := range []M{{"phase": "Ready", "ready": true}, {"phase": "Failed", "ready": false}} {
				w.Put(g, ns, "sentinel-"+strings.ToLower(st["phase"].(string)), M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind,
					"metadata": M{"name": "sentinel-" + strings.ToLower(st["phase"].(string)), "namespace": ns, "labels": M{"app": "x", "tier": "x"}}, "status": st})
			}
		}
	}
}

// Verify waits for the expected events of all live subscribers and compares them.
func (w *World) Verify() {
	for _, s := range w.Subs {
		if !s.Alive {
			continue
		}
		if d := s.verify(); d != "" {
			w.C.Failf("%s: %s", s.Name, d)
		}
	}
}

func (s *Sub) verify() string {
	hx.Eventually(10*time.Second, func() string {
		if len(s.Got()) < len(s.Expected) && s.Bad() == "" {
			return "waiting"
		}
		return ""
	})
	if b := s.Bad(); b != "" {
		return b
	}
	got := s.Got()
	// the initial objects come in any order
	for s.next < len(s.Expected) {
		j := s.next
		for j < len(s.Expected) && s.Expected[j].Type == "initial" {
			j++
		}
		if j > s.next {
			n := j - s.next
			if len(got) < j {
				return fmt.Sprintf("of the %d objects existing when it was attached only %d are reported", n, len(got)-s.next)
			}
			g := append([]Ev{}, got[s.next:j]...)
			sort.Slice(g, func(a, b int) bool { return g[a].Key < g[b].Key })
			for k := range g {
				if d := s.differs(s.Expected[s.next+k], g[k]); d != "" {
					return "initial objects: " + d
				}
			}
			s.next = j
			continue
		}
		if len(got) <= s.next {
			return fmt.Sprintf("the event %s is not reported", s.Expected[s.next])
		}
		if d := s.differs(s.Expected[s.next], got[s.next]); d != "" {
			return d
		}
		s.next++
	}
	if len(got) > len(s.Expected) {
		return fmt.Sprintf("superfluous event %s", got[len(s.Expected)])
	}
	return ""
}

func (s *Sub) differs(want, got Ev) string {
	typ := want.Type
	if typ == "initial" && !s.Informer {
		typ = "add"
	}
	if want.Entry && got.Type == "update" {
		typ = "update"
	}
	if got.Type != typ || got.Key != want.Key || got.Old != want.Old || (got.New != want.New && !want.AnyNew) {
		return fmt.Sprintf("got %s, want %s", got, want)
	}
	return ""
}

// List compares a full list through a client with the model.
func (w *World) List(g schema.GroupVersionKind, via int) {
	list := &unstructured.UnstructuredList{}
	list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
	if err := w.Clients[via].List(Ctx, list); err != nil {
		w.C.Failf("list: %v", err)
	}
	got := []string{}
	for i := range list.Items {
		got = append(got, ObjKey(&list.Items[i])+" "+Norm(&list.Items[i]))
	}
	sort.Strings(got)
	want := []string{}
	for _, k := range w.Keys(g) {
		want = append(want, k+" "+ref.JSON(w.Model[k]))
	}
	if strings.Join(got, "\n") != strings.Join(want, "\n") {
		w.C.Failf("%s lists %v, want %v", w.Names[via], got, want)
	}
}

// Replay checks that the events of a subscriber form valid histories of objects and returns the content.
func Replay(s *Sub, evs []Ev) (map[string]string, string) {
	st := map[string]string{}
	for _, e := range evs {
		cur, ok := st[e.Key]
		switch e.Type {
		case "initial", "add":
			if ok {
				return nil, fmt.Sprintf("%s is added twice", e.Key)
			}
			st[e.Key] = e.New
		case "update":
			if !ok && !s.Restricted {
				return nil, fmt.Sprintf("%s is updated without being there", e.Key)
			}
			if s.Informer && e.Old != cur {
				return nil, fmt.Sprintf("%s is updated from %s, but the last event left %s", e.Key, e.Old, cur)
			}
			if cur == e.New {
				return nil, fmt.Sprintf("%s is updated without a change", e.Key)
			}
			st[e.Key] = e.New
		case "delete":
			if !ok {
				return nil, fmt.Sprintf("%s is deleted without being there", e.Key)
			}
			delete(st, e.Key)
		}
	}
	return st, ""
}

// ToM makes a document of strings.
func ToM(m map[string]string) M {
	r := M{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

// Watch is the interface of watches.
type Watch = watch.Interface

// WithWatch makes a client that may be able to watch one that claims to be.
type WithWatch struct{ client.Client }

func (c WithWatch) Watch(ctx context.Context, list client.ObjectList, opts ...client.ListOption) (watch.Interface, error) {
	return c.Client.(interface {
		Watch(ctx context.Context, list client.ObjectList, opts ...client.ListOption) (watch.Interface, error)
	}).Watch(ctx, list, opts...)
}
