package c13

import (
	"context"
	"fmt"
	"runtime"
	"strings"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"
	"dcverif/vw"

	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/watch"
	"sigs.k8s.io/controller-runtime/pkg/client"

	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

type M = gen.M

func drawGVK(t gen.T) int { return gen.Pick(t, "gvk", 0, 0, 0, 1, 2) }

// TestHistory: one goroutine, subscribers come and go.
func TestHistory(t *testing.T) {
	hx.Check(t, "histories of 3 to 30 steps on one shared store with up to two attached caches: creates (also of existing objects), updates, store updates with a stale previous object, patches, status updates and deletions of views of 3 types, mixed with attaching handlers to informers and watchers with namespace, label and field restrictions, and with detaching them; after each step every live subscriber must have seen exactly the events that its selection and the change call for, previous and new contents included, although every subscriber overwrites the objects that it gets; non-trivial: at least 3 changes seen by a subscriber attached to a non-empty store",
		hx.Scale(3000, 100000), func(c *hx.Case) {
			w := vw.New(c, gen.Int(c.T, 0, 2, "attached"))
			defer w.Close()
			seen, nonempty := 0, false
			for i, n := 0, gen.Int(c.T, 3, 30, "steps"); i < n; i++ {
				live := []*vw.Sub{}
				for _, s := range w.Subs {
					if s.Alive {
						live = append(live, s)
					}
				}
				g := vw.GVKs[drawGVK(c.T)]
				switch k := gen.Int(c.T, 0, 15, "step"); {
				case k < 3 && len(live) < 6:
					s := w.AddHandler(g, gen.Int(c.T, 0, len(w.Caches)-1, "via"))
					nonempty = nonempty || len(s.Expected) > 0
					c.Step("attach %s", s.Name)
				case k < 6 && len(live) < 6:
					opts, desc, match := vw.Options(c.T)
					s := w.AddWatch(g, gen.Int(c.T, 0, len(w.Caches)-1, "via"), opts, desc, match, gen.Bool(c.T, "client"))
					nonempty = nonempty || len(s.Expected) > 0
					c.Step("attach %s", s.Name)
				case k == 6 && len(live) > 0:
					s := live[gen.Int(c.T, 0, len(live)-1, "which")]
					c.Step("detach %s", s.Name)
					w.Detach(s, gen.Bool(c.T, "ctx"))
					c.Class("detached")
				default:
					if w.Write(g) && len(live) > 0 {
						seen++
					}
				}
				w.Verify()
			}
			w.Sentinels()
			w.Verify()
			c.NonTrivial(seen >= 3 && nonempty)
		})
}

// TestConcurrent: several writers, subscribers attached and detached meanwhile.
func TestConcurrent(t *testing.T) {
	hx.Check(t, "2 to 5 concurrent writers, each doing 5 to 60 creates, updates, patches and deletions of up to 4 shared objects of one type through different caches, while handlers and watchers with restrictions are attached and some detached; when the writers are done the events of every live subscriber must replay to exactly the matching part of the store, each object having a valid history in which an update starts from the content that the previous event left; non-trivial: at least 3 subscribers attached meanwhile",
		hx.Scale(500, 15000), func(c *hx.Case) {
			w := vw.New(c, 2)
			defer w.Close()
			g := vw.GVKs[0]
			type op struct {
				kind, name, via int
				m               M
			}
			plans := [][]op{}
			names := gen.Int(c.T, 1, 4, "names")
			for i, n := 0, gen.Int(c.T, 2, 5, "writers"); i < n; i++ {
				p := []op{}
				for j, k := 0, gen.Int(c.T, 5, 60, "ops"); j < k; j++ {
					nm := gen.Int(c.T, 0, names-1, "name")
					p = append(p, op{gen.Pick(c.T, "op", 0, 0, 1, 1, 1, 2, 3, 3), nm, gen.Int(c.T, 0, 2, "via"), vw.Content(c.T, g, "ns1", fmt.Sprintf("n%d", nm))})
				}
				plans = append(plans, p)
			}
			type sub struct {
				handler  bool
				via      int
				opts     []client.ListOption
				desc     string
				match    func(M) bool
				after    int
				detached bool
			}
			subs := []sub{}
			for i, n := 0, gen.Int(c.T, 1, 8, "subs"); i < n; i++ {
				s := sub{handler: gen.Bool(c.T, "handler"), via: gen.Int(c.T, 0, 2, "via"), after: gen.Int(c.T, 0, 40, "after"), detached: gen.Prob(c.T, 3, "detach")}
				s.opts, s.desc, s.match = vw.Options(c.T)
				subs = append(subs, s)
			}
			c.Step("%d writers on %d names, %d subscribers", len(plans), names, len(subs))
			for _, s := range subs {
				c.Step("subscriber: handler %v via %d %s after %d, detached %v", s.handler, s.via, s.desc, s.after, s.detached)
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for _, p := range plans {
				p := p
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					for j, o := range p {
						cl := w.Clients[o.via]
						switch o.kind {
						case 0:
							_ = cl.Create(vw.Ctx, vw.Obj(o.m))
						case 1:
							_ = cl.Update(vw.Ctx, vw.Obj(o.m))
						case 2:
							_ = cl.Patch(vw.Ctx, vw.Obj(o.m), client.RawPatch("application/merge-patch+json", []byte(fmt.Sprintf(`{"spec":{"p":%d}}`, j))))
						case 3:
							_ = cl.Delete(vw.Ctx, vw.Obj(o.m))
						}
						if j%7 == 3 {
							runtime.Gosched()
						}
					}
				}()
			}
			close(start)
			var live []*vw.Sub
			c.MustReturn("attaching and detaching", 60*time.Second, func() {
				for _, s := range subs {
					for k := 0; k < s.after; k++ {
						runtime.Gosched()
					}
					var v *vw.Sub
					if s.handler {
						v = w.AddHandler(g, s.via)
					} else {
						v = w.AddWatch(g, s.via, s.opts, s.desc, s.match, s.after%2 == 0)
					}
					if s.detached {
						w.Detach(v, s.after%3 == 0)
					} else {
						live = append(live, v)
					}
				}
			})
			c.MustReturn("the writers", 60*time.Second, wg.Wait)
			list := &unstructured.UnstructuredList{}
			list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
			if err := w.Clients[0].List(vw.Ctx, list); err != nil {
				c.Failf("%v", err)
			}
			for _, s := range live {
				want := map[string]string{}
				for i := range list.Items {
					o := &list.Items[i]
					if s.Match(o.Object) {
						want[vw.ObjKey(o)] = vw.Norm(o)
					}
				}
				d := hx.Eventually(10*time.Second, func() string {
					if b := s.Bad(); b != "" {
						return b
					}
					st, bad := vw.Replay(s, s.Got())
					if bad != "" {
						return bad
					}
					if ref.JSON(vw.ToM(st)) != ref.JSON(vw.ToM(want)) {
						return fmt.Sprintf("the events replay to %v, the store has %v", st, want)
					}
					return ""
				})
				if d != "" {
					tr := []string{}
					for _, e := range s.Got() {
						tr = append(tr, e.String())
					}
					c.Failf("%s: %s\n  events:\n    %s", s.Name, d, strings.Join(tr, "\n    "))
				}
				if s.Informer {
					c.Class("handler")
				} else {
					c.Class("watcher")
				}
			}
			c.NonTrivial(len(live) >= 3)
		})
}

// TestSlow: a watcher that is not read for a while.
func TestSlow(t *testing.T) {
	hx.Check(t, "a watcher that nobody reads while 1 to 6000 changes are made, next to a handler and a watcher that are served: the writers finish, the others see everything, and the slow one gets exactly one event per change once it is read, or it is stopped without blocking anybody; non-trivial: more changes than the event channel holds",
		hx.Scale(24, 400), func(c *hx.Case) {
			w := vw.New(c, 1)
			defer w.Close()
			g := vw.GVKs[0]
			h := w.AddHandler(g, 1)
			fast := w.AddWatch(g, 0, nil, "", func(M) bool { return true }, false)
			list := &unstructured.UnstructuredList{}
			list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
			ctx, cancel := context.WithCancel(vw.Ctx)
			defer cancel()
			slow, err := w.Caches[gen.Int(c.T, 0, 1, "via")].Watch(ctx, list)
			if err != nil {
				c.Failf("%v", err)
			}
			n := gen.Pick(c.T, "n", 1, 200, cache.DefaultWatchChannelBuffer, cache.DefaultWatchChannelBuffer+1, cache.DefaultWatchChannelBuffer+3, 700, 1100, 2300, 6000)
			stop := gen.Prob(c.T, 4, "stop")
			c.Step("%d changes, stopped %v", n, stop)
			contents := []M{}
			for i := 0; i < n; i++ {
				contents = append(contents, M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": M{"name": "a", "namespace": "ns1"}, "spec": M{"i": int64(i)}})
			}
			begin := time.Now()
			c.MustReturn("writing", 120*time.Second, func() {
				for _, m := range contents {
					if err := w.Clients[0].Create(vw.Ctx, vw.Obj(m)); err != nil {
						panic(err)
					}
				}
			})
			if d := time.Since(begin); d > 10*time.Second+time.Duration(n)*5*time.Millisecond {
				c.Failf("%d changes take %s: the slow watcher blocks the writers", n, d)
			}
			for _, s := range []*vw.Sub{h, fast} {
				if d := hx.Eventually(20*time.Second, func() string {
					if k := len(s.Got()); k != n {
						return fmt.Sprintf("%d events instead of %d", k, n)
					}
					return s.Bad()
				}); d != "" {
					c.Failf("%s: %s", s.Name, d)
				}
			}
			if stop {
				c.MustReturn("Stop", 30*time.Second, slow.Stop)
				c.MustReturn("draining", 30*time.Second, func() {
					for range slow.ResultChan() {
					}
				})
				c.MustReturn("Stop again", 30*time.Second, slow.Stop)
			} else {
				for i := 0; i < n; i++ {
					select {
					case e, ok := <-slow.ResultChan():
						o, is := e.Object.(object.Object)
						if !ok || !is {
							c.Failf("no object in event %d", i)
						}
						want := watch.Modified
						if i == 0 {
							want = watch.Added
						}
						if e.Type != want || vw.Norm(o) != ref.JSON(contents[i]) {
							c.Failf("event %d is %s %s, want %s %s", i, e.Type, vw.Norm(o), want, ref.JSON(contents[i]))
						}
					case <-time.After(20 * time.Second):
						c.Failf("event %d of %d is lost", i, n)
					}
				}
			}
			c.NonTrivial(n > cache.DefaultWatchChannelBuffer)
		})
}

// TestReentrant: handlers that use the store themselves.
func TestReentrant(t *testing.T) {
	hx.Check(t, "handlers that, when an object is added, write a derived object of the same or another type, list the store, or attach and detach another handler: nothing blocks, and all handlers see consistent histories; every case is non-trivial",
		hx.Scale(300, 6000), func(c *hx.Case) {
			w := vw.New(c, 1)
			defer w.Close()
			g := vw.GVKs[0]
			out := vw.GVKs[gen.Pick(c.T, "out", 0, 2)]
			mode := gen.Int(c.T, 0, 2, "mode")
			n := gen.Int(c.T, 1, 6, "n")
			via := gen.Int(c.T, 0, 1, "via")
			c.Step("mode %d out %s via %d: %d objects", mode, out, via, n)
			first := w.AddHandler(g, 1-via)
			sink := w.AddHandler(out, 0)
			inf, err := w.Caches[via].GetInformerForKind(vw.Ctx, g)
			if err != nil {
				c.Failf("%v", err)
			}
			var fail string
			_, err = inf.AddEventHandler(addFunc(func(o object.Object) {
				if strings.HasPrefix(o.GetName(), "out-") {
					return
				}
				switch mode {
				case 0:
					d := vw.Obj(M{"apiVersion": out.GroupVersion().String(), "kind": out.Kind, "metadata": M{"name": "out-" + o.GetName(), "namespace": "ns1"}})
					if err := w.Clients[0].Create(vw.Ctx, d); err != nil {
						fail = err.Error()
					}
				case 1:
					list := &unstructured.UnstructuredList{}
					list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
					if err := w.Clients[1].List(vw.Ctx, list); err != nil || len(list.Items) == 0 {
						fail = fmt.Sprintf("list in handler: %v, %d objects", err, len(list.Items))
					}
				case 2:
					i2, err := w.Caches[via].GetInformerForKind(vw.Ctx, out)
					if err != nil {
						fail = err.Error()
						return
					}
					reg, err := i2.AddEventHandler(addFunc(func(object.Object) {}))
					if err == nil {
						err = i2.RemoveEventHandler(reg)
					}
					if err != nil {
						fail = err.Error()
					}
				}
			}))
			if err != nil {
				c.Failf("%v", err)
			}
			c.MustReturn("writing", 30*time.Second, func() {
				for i := 0; i < n; i++ {
					o := vw.Obj(M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": M{"name": fmt.Sprintf("n%d", i), "namespace": "ns1"}})
					if err := w.Clients[0].Create(vw.Ctx, o); err != nil {
						panic(err)
					}
				}
			})
			want := n
			if mode == 0 && out == g {
				want = 2 * n
			}
			wantSink := 0
			if mode == 0 {
				wantSink = n
			}
			if out == g {
				wantSink = want
			}
			if d := hx.Eventually(20*time.Second, func() string {
				if k := len(first.Got()); k != want {
					return fmt.Sprintf("%d events at %s instead of %d", k, first.Name, want)
				}
				if k := len(sink.Got()); k != wantSink {
					return fmt.Sprintf("%d events at %s instead of %d", k, sink.Name, wantSink)
				}
				return first.Bad() + sink.Bad()
			}); d != "" || fail != "" {
				c.Failf("%s %s", d, fail)
			}
			c.NonTrivial(true)
		})
}

type addFunc func(o object.Object)

func (f addFunc) OnAdd(o any, _ bool) { f(o.(object.Object)) }
func (f addFunc) OnUpdate(_, _ any)   {}
func (f addFunc) OnDelete(_ any)      {}

// TestGoroutines: stopped watches leave nothing behind.
func TestGoroutines(t *testing.T) {
	hx.Check(t, "20 to 60 watches, stopped by their stop function or their context while the other one stays valid: the goroutines that serve them end; every case is non-trivial",
		hx.Scale(8, 60), func(c *hx.Case) {
			w := vw.New(c, 0)
			defer w.Close()
			base := runtime.NumGoroutine()
			n := gen.Int(c.T, 20, 60, "n")
			byCtx := gen.Bool(c.T, "ctx")
			c.Step("%d watches, stopped by context: %v", n, byCtx)
			for i := 0; i < n; i++ {
				s := w.AddWatch(vw.GVKs[0], 0, nil, "", func(M) bool { return true }, false)
				w.Detach(s, byCtx)
			}
			if d := hx.Eventually(10*time.Second, func() string {
				if k := runtime.NumGoroutine(); k > base+n/4 {
					return fmt.Sprintf("%d goroutines before, %d after", base, k)
				}
				return ""
			}); d != "" {
				c.Failf("%s", d)
			}
			c.NonTrivial(true)
		})
}

// TestKnown: recorded findings.
func TestKnown(t *testing.T) {
	hx.Known(t, "C13-add-over-existing", "adding an existing object to the store directly (not through a client) is reported as an addition; a watcher whose selection the object leaves is told nothing", func() string {
		vc := cache.NewViewCache(cache.CacheOptions{})
		g := vw.GVKs[0]
		list := &unstructured.UnstructuredList{}
		list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
		w, err := vc.Watch(vw.Ctx, list, client.MatchingLabels{"app": "x"})
		if err != nil {
			return err.Error()
		}
		defer w.Stop()
		for _, l := range []string{"x", "y"} {
			if err := vc.Add(vw.Obj(M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": M{"name": "a", "namespace": "ns1", "labels": M{"app": l}}})); err != nil {
				return err.Error()
			}
		}
		n := 0
		for {
			select {
			case <-w.ResultChan():
				if n++; n == 2 {
					return ""
				}
			case <-time.After(500 * time.Millisecond):
				return fmt.Sprintf("%d events for an object that was added and then replaced", n)
			}
		}
	})
}
