package c14

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"
	"dcverif/vw"

	"github.com/go-logr/logr"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
)

type M = gen.M

func ident(g schema.GroupVersionKind, ns, name string) M {
	return M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": M{"name": name, "namespace": ns}}
}

// TestHistory: caches come and go on a shared store.
func TestHistory(t *testing.T) {
	hx.Check(t, "histories of 5 to 40 steps on a shared store and 2 to 6 caches attached to it: attaching another cache, starting and stopping caches, removing informers and getting new ones, handlers and watchers with restrictions at any cache, and changes of views of equal kind of two operators and of another kind through the surfaces of any living cache; after each step every subscription at a living cache has seen exactly the events due to it and gets and lists through all living caches equal one map of the objects; non-trivial: a cache with subscriptions was stopped or an informer with handlers removed, and another cache's subscribers saw changes afterwards",
		hx.Scale(2500, 80000), func(c *hx.Case) {
			w := vw.New(c, gen.Int(c.T, 2, 3, "attached"))
			defer w.Close()
			dropped, after := false, 0
			for i, n := 0, gen.Int(c.T, 5, 40, "steps"); i < n; i++ {
				live := 0
				for _, s := range w.Subs {
					if s.Alive {
						live++
					}
				}
				g := vw.GVKs[gen.Pick(c.T, "gvk", 0, 0, 1, 1, 2)]
				via := w.Living()
				subsAt := func(f func(s *vw.Sub) bool) (here, elsewhere int) {
					for _, s := range w.Subs {
						if s.Alive && f(s) {
							here++
						} else if s.Alive {
							elsewhere++
						}
					}
					return
				}
				switch k := gen.Int(c.T, 0, 19, "step"); {
				case k < 4 && live < 8:
					s := w.AddHandler(g, via)
					c.Step("attach %s", s.Name)
				case k < 6 && live < 8:
					opts, desc, match := vw.Options(c.T)
					s := w.AddWatch(g, via, opts, desc, match, gen.Bool(c.T, "client"))
					c.Step("attach %s", s.Name)
				case k == 6 && len(w.Caches) < 7:
					w.Attach()
					c.Step("attach cache %s", w.Names[len(w.Names)-1])
				case k == 7 && !w.Started(via) && via > 0:
					c.Step("start %s", w.Names[via])
					w.Start(via)
				case k == 8 && w.Running() > 0:
					via = w.Running()
					c.Step("stop %s", w.Names[via])
					here, other := subsAt(func(s *vw.Sub) bool { return s.Via == via })
					dropped = dropped || here > 0 && other > 0
					c.ClassIf(here > 0 && other > 0, "cache with subscriptions stopped")
					w.Stop(via)
				case k == 9 && via > 0:
					c.Step("remove the informer of %s at %s", g.GroupKind(), w.Names[via])
					here, other := subsAt(func(s *vw.Sub) bool { return s.Via == via && s.Informer && s.GVK == g })
					dropped = dropped || here > 0 && other > 0
					c.ClassIf(here > 0 && other > 0, "informer with handlers removed")
					w.Remove(g, via)
				default:
					if w.Write(g) && live > 0 && dropped {
						after++
					}
				}
				w.Verify()
				a, b := w.Living(), w.Living()
				w.List(g, a)
				for _, ns := range []string{"ns1", "ns2"} {
					w.Get(g, ns, gen.Pick(c.T, "name", "a", "b", "c"), b, gen.Bool(c.T, "cl"))
				}
			}
			w.Sentinels()
			w.Verify()
			for i := range w.Caches {
				if !w.Dead[i] {
					for _, g := range vw.GVKs {
						w.List(g, i)
					}
				}
			}
			c.NonTrivial(dropped && after >= 2)
		})
}

// TestConcurrent: caches are stopped while others are in use.
func TestConcurrent(t *testing.T) {
	hx.Check(t, "2 to 4 writers on up to 4 shared objects, while 1 to 8 further caches attach to the store, get informers and handlers, start, remove informers and stop, all concurrently; nothing blocks and the handlers and watchers of a lasting cache see valid histories that end in the content of the store; every case is non-trivial",
		hx.Scale(500, 15000), func(c *hx.Case) {
			w := vw.New(c, 1)
			defer w.Close()
			g := vw.GVKs[0]
			w.Start(1)
			live := []*vw.Sub{w.AddHandler(g, 1), w.AddHandler(g, 0)}
			for i := 0; i < 2; i++ {
				opts, desc, match := vw.Options(c.T)
				live = append(live, w.AddWatch(g, i, opts, desc, match, true))
			}
			type op struct {
				kind int
				m    M
			}
			plans := [][]op{}
			for i, n := 0, gen.Int(c.T, 2, 4, "writers"); i < n; i++ {
				p := []op{}
				for j, k := 0, gen.Int(c.T, 5, 60, "ops"); j < k; j++ {
					p = append(p, op{gen.Pick(c.T, "op", 0, 1, 1, 2), vw.Content(c.T, g, "ns1", fmt.Sprintf("n%d", gen.Int(c.T, 0, 3, "name")))})
				}
				plans = append(plans, p)
			}
			type guest struct{ after, pause, handlers, remove int }
			guests := []guest{}
			for i, n := 0, gen.Int(c.T, 1, 8, "guests"); i < n; i++ {
				guests = append(guests, guest{gen.Int(c.T, 0, 30, "after"), gen.Int(c.T, 0, 30, "pause"), gen.Int(c.T, 0, 3, "handlers"), gen.Int(c.T, 0, 2, "remove")})
			}
			c.Step("%d writers, guests %v", len(plans), guests)
			var wg sync.WaitGroup
			start := make(chan struct{})
			for i, p := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					cl := w.Clients[i%2]
					for _, o := range p {
						switch o.kind {
						case 0:
							_ = cl.Create(vw.Ctx, vw.Obj(o.m))
						case 1:
							_ = cl.Update(vw.Ctx, vw.Obj(o.m))
						case 2:
							_ = cl.Delete(vw.Ctx, vw.Obj(o.m))
						}
						runtime.Gosched()
					}
				}()
			}
			yield := func(n int) {
				for i := 0; i < n; i++ {
					runtime.Gosched()
				}
			}
			for _, gu := range guests {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					yield(gu.after)
					d := cache.NewDelegatingViewCache(w.Caches[0].(*cache.ViewCache), cache.CacheOptions{})
					o := vw.Obj(ident(g, "", ""))
					for i := 0; i < gu.handlers; i++ {
						inf, err := d.GetInformer(vw.Ctx, o)
						if err != nil {
							panic(err)
						}
						if _, err := inf.AddEventHandler(scribbler{}); err != nil {
							panic(err)
						}
						if i == gu.remove {
							_ = d.RemoveInformer(vw.Ctx, o)
						}
					}
					ctx, cancel := context.WithCancel(vw.Ctx)
					done := make(chan struct{})
					go func() {
						_ = d.Start(ctx)
						close(done)
					}()
					yield(gu.pause)
					cancel()
					<-done
				}()
			}
			close(start)
			c.MustReturn("writers and guests", 60*time.Second, wg.Wait)
			list := &unstructured.UnstructuredList{}
			list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
			if err := w.Clients[1].List(vw.Ctx, list); err != nil {
				c.Failf("%v", err)
			}
			for _, s := range live {
				want := map[string]string{}
				for i := range list.Items {
					if o := &list.Items[i]; s.Match(o.Object) {
						want[vw.ObjKey(o)] = vw.Norm(o)
					}
				}
				if d := hx.Eventually(10*time.Second, func() string {
					if b := s.Bad(); b != "" {
						return b
					}
					st, bad := vw.Replay(s, s.Got())
					if bad == "" && ref.JSON(vw.ToM(st)) != ref.JSON(vw.ToM(want)) {
						bad = fmt.Sprintf("the events replay to %v, the store has %v", st, want)
					}
					return bad
				}); d != "" {
					c.Failf("%s: %s", s.Name, d)
				}
			}
			c.NonTrivial(true)
		})
}

type scribbler struct{}

func (scribbler) OnAdd(o any, _ bool) { gen.Scribble(o.(object.Object).UnstructuredContent()) }
func (scribbler) OnUpdate(a, b any) {
	gen.Scribble(a.(object.Object).UnstructuredContent())
	gen.Scribble(b.(object.Object).UnstructuredContent())
}
func (scribbler) OnDelete(o any) { gen.Scribble(o.(object.Object).UnstructuredContent()) }

// TestManagers: the managers of several operators on one store.
func TestManagers(t *testing.T) {
	hx.Check(t, "2 to 4 headless managers whose caches are injected from one view cache, or which share the cache of an API bundle through composite caches: 5 to 25 steps of starting and stopping managers, attaching handlers to informers obtained from a manager's cache and changing views through a manager's client; all managers read the same objects and the handlers of the managers not stopped see every change; non-trivial: a manager was stopped and a handler of another one saw a change afterwards",
		hx.Scale(250, 6000), func(c *hx.Case) {
			vc := cache.NewViewCache(cache.CacheOptions{})
			var shared cache.Cache = vc
			composite := gen.Bool(c.T, "composite")
			if composite {
				cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{ViewCache: vc})
				if err != nil {
					c.Failf("%v", err)
				}
				shared = cc
			}
			type mgr struct {
				client client.Client
				cache  cache.Cache
				start  func(ctx context.Context) error
				cancel context.CancelFunc
				done   chan error
				dead   bool
			}
			mgrs := []*mgr{}
			for i, n := 0, gen.Int(c.T, 2, 4, "managers"); i < n; i++ {
				if composite {
					ca, err := manager.CacheInjector(shared)(nil, cache.Options{})
					if err != nil {
						c.Failf("%v", err)
					}
					cl, err := cache.NewClientForCache(nil, ca, cache.ClientOptions{})
					if err != nil {
						c.Failf("%v", err)
					}
					mgrs = append(mgrs, &mgr{client: cl, cache: ca, start: ca.Start})
					continue
				}
				m, err := manager.New(nil, manager.Options{NewCache: manager.CacheInjector(shared), Metrics: metricsserver.Options{BindAddress: "0"}, Logger: logr.Discard()})
				if err != nil {
					c.Failf("creating a manager: %v", err)
				}
				mgrs = append(mgrs, &mgr{client: m.GetClient(), cache: m.GetCache(), start: m.Start})
			}
			w := vw.New(c, 0)
			w.Caches[0], w.Clients[0], w.Names[0] = vc, vc.GetClient(), "shared"
			defer w.Close()
			for i, m := range mgrs {
				w.Caches = append(w.Caches, surface{m.cache, vc})
				w.Clients = append(w.Clients, vw.WithWatch{Client: m.client})
				w.Names = append(w.Names, fmt.Sprintf("manager%d", i+1))
			}
			defer func() {
				for _, m := range mgrs {
					if m.cancel != nil {
						m.cancel()
						<-m.done
					}
				}
			}()
			stopped, seen := false, 0
			for i, n := 0, gen.Int(c.T, 5, 25, "steps"); i < n; i++ {
				via := w.Living()
				g := vw.GVKs[gen.Pick(c.T, "gvk", 0, 0, 1, 2)]
				live := 0
				for _, s := range w.Subs {
					if s.Alive {
						live++
					}
				}
				switch k := gen.Int(c.T, 0, 9, "step"); {
				case k < 2 && live < 6:
					s := w.AddHandler(g, via)
					c.Step("attach %s", s.Name)
				case k < 4 && via > 0 && mgrs[via-1].cancel == nil:
					c.Step("start %s", w.Names[via])
					m := mgrs[via-1]
					ctx, cancel := context.WithCancel(vw.Ctx)
					m.cancel, m.done = cancel, make(chan error, 1)
					go func() { m.done <- m.start(ctx) }()
				case k == 4 && via > 0 && mgrs[via-1].cancel != nil:
					c.Step("stop %s", w.Names[via])
					m := mgrs[via-1]
					m.cancel()
					select {
					case <-m.done:
					case <-time.After(40 * time.Second):
						c.Failf("%s does not stop", w.Names[via])
					}
					m.cancel = nil
					w.Dead[via] = true
					for _, s := range w.Subs {
						if s.Via == via {
							s.Alive = false
						}
					}
					stopped = true
				default:
					if w.Write(g) && live > 0 && stopped {
						seen++
					}
				}
				w.Verify()
				w.List(g, w.Living())
				w.Get(g, "ns1", gen.Pick(c.T, "name", "a", "b", "c"), w.Living(), gen.Bool(c.T, "cl"))
			}
			for _, m := range mgrs {
				ctx, cancel := context.WithTimeout(vw.Ctx, 20*time.Second)
				ok := false
				c.NoPanic("WaitForCacheSync", func() { ok = m.cache.WaitForCacheSync(ctx) })
				cancel()
				if !ok && !w.Dead[1] {
					c.Failf("the cache of a manager does not sync")
				}
			}
			c.ClassIf(composite, "composite")
			c.NonTrivial(stopped && seen > 0)
		})
}

// surface is the cache of a manager; changes go to the store.
type surface struct {
	cache.Cache
	store *cache.ViewCache
}

func (s surface) GetClient() client.WithWatch               { return s.store.GetClient() }
func (s surface) Add(obj object.Object) error               { return s.store.Add(obj) }
func (s surface) Update(oldObj, newObj object.Object) error { return s.store.Update(oldObj, newObj) }
func (s surface) Delete(obj object.Object) error            { return s.store.Delete(obj) }
func (s surface) Watch(ctx context.Context, list client.ObjectList, opts ...client.ListOption) (vw.Watch, error) {
	return s.store.Watch(ctx, list, opts...)
}

// TestRouting: views and native objects do not mix.
func TestRouting(t *testing.T) {
	hx.Check(t, "histories of 1 to 25 creates, updates, patches, deletions, gets and lists through a composite client on native objects and on views of the same kind and names: reads of views equal a map of the views, native ones never reach the view store and views never reach the native client, and without native clients native operations fail with an error; non-trivial: a native object and a view of equal kind and name exist at a time",
		hx.Scale(1500, 40000), func(c *hx.Case) {
			native := gen.Prob(c.T, 12, "native")
			vc := cache.NewViewCache(cache.CacheOptions{})
			opts := cache.CacheOptions{ViewCache: cache.NewDelegatingViewCache(vc, cache.CacheOptions{})}
			var rc *cache.FakeRuntimeCache
			if native {
				rc = cache.NewFakeRuntimeCache(nil)
				opts.DefaultCache = rc
			}
			cc, err := cache.NewCompositeCache(nil, opts)
			if err != nil {
				c.Failf("%v", err)
			}
			cl, err := cache.NewClientForCache(nil, cc, cache.ClientOptions{})
			if err != nil {
				c.Failf("%v", err)
			}
			var nc client.Client
			if native {
				nc = fake.NewClientBuilder().WithScheme(object.GetBaseScheme()).Build()
				cl.SetClient(nc)
			}
			pod := schema.GroupVersionKind{Version: "v1", Kind: "Pod"}
			view := schema.GroupVersionKind{Group: "op.view.dcontroller.io", Version: "v1alpha1", Kind: "Pod"}
			models := map[schema.GroupVersionKind]map[string]M{pod: {}, view: {}}
			both := false
			for i, n := 0, gen.Int(c.T, 1, 25, "steps"); i < n; i++ {
				g := gen.Pick(c.T, "gvk", pod, view)
				name := gen.Pick(c.T, "name", "a", "b")
				m := ident(g, "ns1", name)
				m["spec"] = M{"nodeName": gen.Pick(c.T, "v", "x", "y")}
				model := models[g]
				old, exists := model[name]
				o := vw.Obj(m)
				var err error
				op := gen.Int(c.T, 0, 5, "op")
				c.Step("op %d on %s %s", op, g, ref.JSON(m))
				c.NoPanic("operation", func() {
					switch op {
					case 0:
						if exists && g == pod {
							exists = false
							err = fmt.Errorf("not tried")
							return
						}
						err = cl.Create(vw.Ctx, o)
						model[name], exists = m, true
					case 1:
						if exists && g == pod {
							o.SetResourceVersion("")
						}
						err = cl.Update(vw.Ctx, o)
						if exists {
							model[name] = m
						}
					case 2:
						err = cl.Patch(vw.Ctx, o, client.RawPatch("application/merge-patch+json", []byte(`{"metadata":{"labels":{"l":"x"}}}`)))
						if exists {
							model[name] = ref.Patch(old, M{"metadata": M{"labels": M{"l": "x"}}}).(M)
						}
					case 3:
						err = cl.Delete(vw.Ctx, o)
						delete(model, name)
					case 4:
						// native objects are read from the default cache
						if native && g == pod {
							if exists {
								_ = rc.Add(vw.Obj(old))
							} else {
								_ = rc.Delete(vw.Obj(m))
							}
						}
						r := vw.Obj(M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind})
						err = cl.Get(vw.Ctx, client.ObjectKey{Namespace: "ns1", Name: name}, r)
						if err == nil && exists && norm(r) != ref.JSON(old) {
							err = fmt.Errorf("get gives %s, want %s", norm(r), ref.JSON(old))
						}
					case 5:
						list := &unstructured.UnstructuredList{}
						list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
						err = cl.List(vw.Ctx, list)
						exists = true
						if g == view && err == nil && len(list.Items) != len(model) {
							err = fmt.Errorf("%d views listed, %d exist", len(list.Items), len(model))
						}
						for i := range list.Items {
							if list.Items[i].GroupVersionKind() != g {
								err = fmt.Errorf("%s listed", list.Items[i].GroupVersionKind())
							}
						}
					}
				})
				if g == pod && !native {
					exists = false
					models[pod] = map[string]M{}
				}
				if (err == nil) != exists {
					c.Failf("error %v, but the object exists: %v", err, exists)
				}
				// the stores
				for name := range map[string]bool{"a": true, "b": true} {
					v := vw.Obj(M{"apiVersion": view.GroupVersion().String(), "kind": view.Kind})
					err := vc.Get(vw.Ctx, client.ObjectKey{Namespace: "ns1", Name: name}, v)
					want, ok := models[view][name]
					if (err == nil) != ok || ok && norm(v) != ref.JSON(want) {
						c.Failf("the view store has %s: %v %s, want %s", name, err, norm(v), ref.JSON(want))
					}
					if native {
						p := vw.Obj(M{"apiVersion": "v1", "kind": "Pod"})
						err := nc.Get(vw.Ctx, client.ObjectKey{Namespace: "ns1", Name: name}, p)
						want, okp := models[pod][name]
						if (err == nil) != okp || okp && norm(p) != ref.JSON(want) {
							c.Failf("the native client has %s: %v %s, want %s", name, err, norm(p), ref.JSON(want))
						}
						both = both || ok && okp
						v := vw.Obj(M{"apiVersion": view.GroupVersion().String(), "kind": view.Kind})
						if err := nc.Get(vw.Ctx, client.ObjectKey{Namespace: "ns1", Name: name}, v); err == nil {
							c.Failf("the native client has the view %s", name)
						}
					}
				}
			}
			c.ClassIf(!native, "no native clients")
			c.NonTrivial(both)
		})
}

func norm(o object.Object) string {
	m := ref.CopyMap(o.UnstructuredContent())
	if meta, ok := m["metadata"].(M); ok {
		delete(meta, "uid")
		delete(meta, "resourceVersion")
		delete(meta, "creationTimestamp")
	}
	delete(m, "status")
	if s, ok := m["spec"].(M); ok {
		delete(s, "containers")
	}
	return strings.TrimSpace(ref.JSON(m))
}
