package c17

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/opw"
	"dcverif/ref"

	"k8s.io/apimachinery/pkg/watch"
	"sigs.k8s.io/controller-runtime/pkg/client"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

var bg = context.Background()

// start runs controllers of an operator, with slow writes now and then.
func start(c *hx.Case, w *opw.World, f opw.Fault, ks ...opw.Ctl) {
	if f == nil && gen.Bool(c.T, "slow") {
		f = opw.Pauses(int64(gen.Int(c.T, 0, 1<<30, "seed")), time.Millisecond)
	}
	if f != nil {
		w.Ops["test"] = w.NewSlow("test", f, ks...)
	} else {
		w.NewOp("test", ks...)
	}
	w.Ops["test"].Start()
}

const periodicRule = "1-2 controllers with a generated pipeline over 1-2 views and a periodic source of 10-30 ms; 3-15 changes of the views, then 1-5 foreign changes of the target " +
	"(required objects deleted, altered, replaced), possibly while the views change: every required object must be restored. Non-trivial: a required object was drifted."

func TestPeriodic(t *testing.T) {
	hx.Check(t, periodicRule, hx.Scale(350, 10000), func(c *hx.Case) {
		lm := gen.Bool(c.T, "listmaps")
		ks := []opw.Ctl{}
		for i, n := 0, gen.Int(c.T, 1, 2, "nctl"); i < n; i++ {
			k := opw.Ctl{Op: "test", Name: fmt.Sprintf("ctl%d", i), Target: fmt.Sprintf("T%d", i)}
			kinds := []string{"Alpha", "Beta"}[:gen.Int(c.T, 1, 2, "nsrc")]
			tick := opw.Src{Op: "test", Kind: "Tick", Type: opv1a1.Periodic, Params: M{"period": gen.Pick(c.T, "period", "10ms", "30ms", "0.02s")}}
			first := gen.Bool(c.T, "first")
			if first {
				k.Src = append(k.Src, tick)
			}
			for _, kind := range kinds {
				k.Src = append(k.Src, opw.Src{Op: "test", Kind: kind})
			}
			if !first {
				k.Src = append(k.Src, tick)
			}
			k.Pipe = gen.DrawPipe(c.T, gen.PipeConf{Kinds: kinds, ListMaps: &lm})
			ks = append(ks, k)
			c.Step("%s", k)
		}
		w := opw.New(c)
		defer w.Close()
		model := gen.NewWorld([]string{"Alpha", "Beta"}, lm)
		pre := opw.History(c, model, nil, gen.Pick(c.T, "npre", 0, 6, 12))
		for _, x := range pre {
			c.Step("before start: %s", x)
		}
		if m := w.Play(pre, 1); m != "" {
			c.Failf("%s", m)
		}
		start(c, w, nil, ks...)
		drifted := 0
		for p, n := 0, gen.Int(c.T, 1, 2, "phases"); p < n; p++ {
			xs := opw.History(c, model, nil, gen.Pick(c.T, "n", 4, 8, 15, 1))
			for _, x := range xs {
				c.Step("phase %d: %s", p, x)
			}
			if m := w.Play(xs, 1); m != "" {
				c.Failf("%s", m)
			}
			if m := w.Converged(ks, 2*time.Millisecond); m != "" {
				c.Failf("no convergence after phase %d: %s\nerrors: %s", p, m, w.Errors())
			}
			more := []opw.Change{}
			if gen.Prob(c.T, 6, "concurrent") {
				more = opw.History(c, model, nil, gen.Int(c.T, 1, 5, "nmore"))
			}
			played := 0
			// foreign changes
			for i, n := 0, gen.Int(c.T, 1, 5, "ndrift"); i < n; i++ {
				k := ks[gen.Int(c.T, 0, len(ks)-1, "which")]
				objs := w.List(k.Op, k.Target)
				keys := []string{}
				for key := range objs {
					keys = append(keys, key)
				}
				sort.Strings(keys)
				if len(keys) == 0 {
					continue
				}
				m := ref.CopyMap(objs[keys[gen.Int(c.T, 0, len(keys)-1, "key")]])
				x := opw.Change{Obj: m}
				switch gen.Int(c.T, 0, 3, "drift") {
				case 0:
					x.Del = true
				case 1:
					m["spec"] = M{"foreign": true}
				case 2:
					m["foreign"] = L{"x"}
				default:
					for f := range m {
						if f != "metadata" && f != "apiVersion" && f != "kind" {
							delete(m, f)
						}
					}
				}
				c.Step("phase %d, foreign: %s", p, x)
				drifted++
				var err error
				if x.Del {
					err = client.IgnoreNotFound(w.Del(x.Obj))
				} else {
					err = w.Put(x.Obj)
				}
				if err != nil {
					c.Failf("%s: %v", x, err)
				}
				if played < len(more) {
					c.Step("phase %d: %s", p, more[played])
					if m := w.Play(more[played:played+1], 1); m != "" {
						c.Failf("%s", m)
					}
					played++
				}
			}
			for ; played < len(more); played++ {
				c.Step("phase %d: %s", p, more[played])
				if m := w.Play(more[played:played+1], 1); m != "" {
					c.Failf("%s", m)
				}
			}
			// A foreign object that is not required any more may stay: the system only knows its own results.
			m := hx.Eventually(opw.Limit, func() string {
				all := func() string {
					for _, k := range ks {
						want, got := w.Required(k), w.List(k.Op, k.Target)
						for key := range got {
							if _, ok := want[key]; !ok && len(more) > 0 {
								delete(got, key)
							}
						}
						if d := opw.Compare(want, got, k.Pipe.Gathered); d != "" {
							return fmt.Sprintf("target of controller %s: %s", k.Name, d)
						}
					}
					return ""
				}
				if d := all(); d != "" {
					return d
				}
				time.Sleep(2 * time.Millisecond)
				return all()
			})
			if m != "" {
				c.Failf("the target is not restored in phase %d: %s\nerrors: %s", p, m, w.Errors())
			}
			for _, k := range ks {
				want := w.Required(k)
				for key, m := range w.List(k.Op, k.Target) {
					if _, ok := want[key]; !ok {
						_ = w.Del(m)
					}
				}
			}
		}
		c.NonTrivial(drifted > 0)
	})
}

const oneshotRule = "1-2 controllers triggered by one-shot sources (alone, giving 1-3 objects, or joined with a view whose content changes), started on an empty or filled store: " +
	"the source view gets exactly one object by exactly one event, each target object is written exactly once, and the targets are right. Non-trivial: a target is not empty."

func TestOneShot(t *testing.T) {
	hx.Check(t, oneshotRule, hx.Scale(400, 10000), func(c *hx.Case) {
		ks := []opw.Ctl{}
		for i, n := 0, gen.Int(c.T, 1, 2, "nctl"); i < n; i++ {
			kind := fmt.Sprintf("Start%d", i)
			k := opw.Ctl{Op: "test", Name: fmt.Sprintf("ctl%d", i), Target: fmt.Sprintf("T%d", i)}
			k.Src = []opw.Src{{Op: "test", Kind: kind, Type: opv1a1.OneShot}}
			switch gen.Int(c.T, 0, 2, "form") {
			case 0:
				k.Pipe = gen.Pipe{Stages: []ref.Stage{{"@project": M{"metadata": M{"name": "single", "namespace": "default"}, "spec": M{"a": int64(gen.Int(c.T, 0, 5, "a"))}}}}}
			case 1:
				l := L{}
				for j, m := 0, gen.Int(c.T, 0, 3, "len"); j < m; j++ {
					l = append(l, M{"x": int64(j)})
				}
				k.Pipe = gen.Pipe{Unwound: true, Stages: []ref.Stage{{"@project": M{"metadata": M{"name": "many", "namespace": "default"}, "spec": M{"l": l}}}, {"@unwind": "$.spec.l"}}}
			default:
				k.Src = append(k.Src, opw.Src{Op: "test", Kind: "Alpha"})
				k.Pipe = gen.Pipe{Joined: true, Kinds: []string{kind, "Alpha"}, Stages: []ref.Stage{
					{"@join": M{"@eq": L{"$." + kind + ".metadata.name", "one-shot-trigger"}}},
					{"@project": M{"metadata": M{"name": "$.Alpha.metadata.name", "namespace": "$.Alpha.metadata.namespace"}, "spec": "$.Alpha.spec"}},
				}}
			}
			ks = append(ks, k)
			c.Step("%s", k)
		}
		w := opw.New(c)
		defer w.Close()
		model := gen.NewWorld([]string{"Alpha"}, false)
		xs := opw.History(c, model, nil, gen.Pick(c.T, "n", 6, 12, 0))
		npre := gen.Int(c.T, 0, len(xs), "npre")
		for i, x := range xs {
			c.Step("%s (before start: %v)", x, i < npre)
		}
		if m := w.Play(xs[:npre], 1); m != "" {
			c.Failf("%s", m)
		}
		events := make([][]string, len(ks))
		var mu sync.Mutex
		for i, k := range ks {
			wt, err := w.Client.Watch(bg, cache.NewViewObjectList("test", k.Src[0].Kind))
			if err != nil {
				c.Failf("watch: %v", err)
			}
			defer wt.Stop()
			go func() {
				for e := range wt.ResultChan() {
					if e.Type == watch.Bookmark {
						continue
					}
					mu.Lock()
					o, _ := e.Object.(object.Object)
					events[i] = append(events[i], fmt.Sprintf("%s %s", e.Type, object.Dump(o)))
					mu.Unlock()
				}
			}()
		}
		writes := map[string]int{}
		start(c, w, func(kind, key, verb string) error {
			mu.Lock()
			defer mu.Unlock()
			writes[kind+"|"+key+"|"+verb]++
			return nil
		}, ks...)
		if m := w.Play(xs[npre:], 1); m != "" {
			c.Failf("%s", m)
		}
		if m := w.Converged(ks, time.Duration(gen.Pick(c.T, "stay", 2, 30))*time.Millisecond); m != "" {
			c.Failf("no convergence: %s\nerrors: %s", m, w.Errors())
		}
		mu.Lock()
		defer mu.Unlock()
		filled := false
		for i, k := range ks {
			if n := len(w.List("test", k.Src[0].Kind)); n != 1 {
				c.Failf("view %s has %d objects", k.Src[0].Kind, n)
			}
			if len(events[i]) != 1 {
				c.Failf("view %s had %d events: %v", k.Src[0].Kind, len(events[i]), events[i])
			}
			got := w.List(k.Op, k.Target)
			filled = filled || len(got) > 0
			if len(k.Src) == 1 {
				for key := range got {
					n := 0
					for _, verb := range []string{"modify", "create", "update", "patch", "delete"} {
						n += writes[k.Target+"|"+key+"|"+verb]
					}
					if n != 1 {
						c.Failf("object %s of %s was written %d times", key, k.Target, n)
					}
				}
			}
		}
		c.NonTrivial(filled)
		c.ClassIf(npre < len(xs), "changes while running")
	})
}

const patcherRule = "a controller with a patching target: it decorates the objects of view Base with fields computed from the objects themselves or from another view, for the objects that meet a generated condition. " +
	"5-25 changes: users create, delete, recreate and patch their own fields of the objects while the controller runs; target objects may be created after the sources. In the end every object of Base must hold exactly " +
	"the user's content and the fields that are due, and no object is created by the controller. Non-trivial: some object is decorated and some patch was withdrawn or changed."

func TestPatcher(t *testing.T) {
	hx.Check(t, patcherRule, hx.Scale(500, 15000), func(c *hx.Case) {
		self := gen.Bool(c.T, "self")
		src := "Alpha"
		if self {
			src = "Base"
		}
		k := opw.Ctl{Op: "test", Name: "ctl", Target: "Base", Patch: true, Src: []opw.Src{{Op: "test", Kind: src}}}
		cond := gen.Pick[any](c.T, "cond", true, M{"@gt": L{"$.spec.a", int64(0)}}, M{"@eq": L{"$.spec.b", "x"}}, M{"@and": L{M{"@lt": L{"$.spec.a", int64(3)}}, M{"@eq": L{"$.spec.b", "y"}}}})
		due := M{"sum": M{"@add": L{"$.spec.a", int64(gen.Int(c.T, 1, 3, "inc"))}}, "nested": M{"name": "$.metadata.name", "b": "$.spec.b"}}
		if gen.Bool(c.T, "list") {
			due["l"] = L{"$.spec.b", M{"v": "$.spec.a"}}
		}
		if gen.Bool(c.T, "opt") {
			due["opt"] = M{"@cond": L{M{"@eq": L{"$.spec.a", int64(1)}}, "one", "other"}}
		}
		where := gen.Pick(c.T, "where", "status", "due", "spec")
		proj := M{"metadata": M{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, where: due}
		if where == "spec" {
			proj[where] = M{"due": due}
		}
		if gen.Bool(c.T, "label") {
			proj["metadata"].(M)["labels"] = M{"decorated": "$.spec.b"}
		}
		k.Pipe = gen.Pipe{Stages: []ref.Stage{{"@select": cond}, {"@project": proj}}}
		c.Step("%s (patcher)", k)

		w := opw.New(c)
		defer w.Close()
		users := map[string]M{} // the users' content of Base
		srcs := users
		if !self {
			srcs = map[string]M{}
		}
		names := []string{"a", "b", "c"}
		content := func(kind, name string) M {
			m := M{"apiVersion": gen.GVK(kind).GroupVersion().String(), "kind": kind, "metadata": M{"name": name, "namespace": "default"},
				"spec": M{"a": int64(gen.Int(c.T, 0, 3, "a")), "b": gen.Pick(c.T, "b", "x", "y", "z")}}
			if gen.Prob(c.T, 4, "lab") {
				m["metadata"].(M)["labels"] = M{"user": "u"}
			}
			return m
		}
		changed := 0
		change := func(i int) {
			kind, objs := src, srcs
			if !self && gen.Prob(c.T, 5, "base") {
				kind, objs = "Base", users
			}
			name := gen.Pick(c.T, "name", names...)
			old, exists := objs[name]
			switch op := gen.Int(c.T, 0, 5, "op"); {
			case !exists:
				m := content(kind, name)
				c.Step("%d create %s", i, ref.Canon(m))
				objs[name] = m
				if err := w.Put(m); err != nil {
					c.Failf("%v", err)
				}
			case op == 0 && (self || kind != "Base"): // an object deleted while the sources stay would not be patched again
				c.Step("%d delete %s %s", i, kind, name)
				delete(objs, name)
				changed++
				if err := w.Del(old); err != nil {
					c.Failf("%v", err)
				}
			case op == 1 && (self || kind != "Base"):
				m := content(kind, name)
				c.Step("%d delete and recreate %s", i, ref.Canon(m))
				objs[name] = m
				changed++
				if err := w.Del(old); err != nil {
					c.Failf("%v", err)
				}
				if gen.Bool(c.T, "wait") {
					time.Sleep(time.Millisecond)
				}
				if err := w.Put(m); err != nil {
					c.Failf("%v", err)
				}
			default:
				p := M{"spec": M{"a": int64(gen.Int(c.T, 0, 3, "a"))}}
				if gen.Bool(c.T, "b?") {
					p["spec"].(M)["b"] = gen.Pick(c.T, "b", "x", "y", "z")
				}
				if gen.Prob(c.T, 4, "ann") {
					p["metadata"] = M{"annotations": M{"by": gen.Pick(c.T, "by", "u", "v")}}
				}
				c.Step("%d patch %s %s with %s", i, kind, name, ref.Canon(p))
				objs[name] = ref.Patch(ref.CopyMap(old), p).(M)
				changed++
				if err := w.Client.Patch(bg, gen.Obj(ref.CopyMap(old)), client.RawPatch("application/merge-patch+json", []byte(ref.Canon(p)))); err != nil {
					c.Failf("%v", err)
				}
			}
			if p := gen.Pick(c.T, "pause", 0, 0, 0, 100, 1000, 3000); p > 0 {
				time.Sleep(time.Duration(p) * time.Microsecond)
			}
		}
		n := gen.Pick(c.T, "n", 10, 15, 5, 25)
		npre := gen.Int(c.T, 0, n, "npre")
		if npre > n/2 {
			npre = 0
		}
		for i := 0; i < npre; i++ {
			change(i)
		}
		start(c, w, nil, k)
		for i := npre; i < n; i++ {
			change(i)
		}
		want := func() (map[string]M, int) {
			r := map[string]M{}
			dec := 0
			for name, u := range users {
				m := ref.CopyMap(u)
				if s, ok := srcs[name]; ok {
					bag, err := ref.RunPipeline(k.Pipe.Stages, []ref.Source{{Kind: src, Docs: []map[string]any{ref.CopyMap(s)}}})
					if err != nil {
						c.Fatalf("harness: %v", err)
					}
					for _, e := range bag {
						dec++
						m = ref.Patch(m, ref.CopyMap(e)).(M)
					}
				}
				r["default/"+name] = clean(m)
			}
			return r, dec
		}
		exp, dec := want()
		if m := hx.Eventually(opw.Limit, func() string {
			cmp := func() string {
				got := map[string]M{}
				for key, m := range w.List("test", "Base") {
					got[key] = clean(m)
				}
				if ref.Canon(got) != ref.Canon(exp) {
					return fmt.Sprintf("want %s\ngot %s", ref.Canon(exp), ref.Canon(got))
				}
				return ""
			}
			if d := cmp(); d != "" {
				return d
			}
			time.Sleep(3 * time.Millisecond)
			return cmp()
		}); m != "" {
			c.Failf("view Base is wrong in the end: %s\nerrors: %s", m, w.Errors())
		}
		c.NonTrivial(dec > 0 && changed > 0)
		c.ClassIf(self, "decorates its own source")
		c.Class("patches " + where)
	})
}

// clean drops empty maps: an object whose patch was withdrawn may keep an empty map.
func clean(m M) M {
	m = ref.CopyMap(m)
	var walk func(m M)
	walk = func(m M) {
		for k, v := range m {
			if x, ok := v.(M); ok {
				walk(x)
				if len(x) == 0 {
					delete(m, k)
				}
			}
			if x, ok := v.(L); ok {
				all := true
				for i, e := range x {
					if em, ok := e.(M); ok {
						walk(em)
						all = all && len(em) == 0
					} else {
						all = all && e == nil
					}
					_ = i
				}
				if all {
					delete(m, k)
				}
			}
		}
	}
	walk(m)
	return m
}

// TestKnown: recorded findings.
func TestKnown(t *testing.T) {
	hx.Known(t, "C17-selector-exit", "an object relabelled so that it leaves the label selector of a source keeps its results in the target", func() string {
		got := "not decided"
		hx.Check(t, "one fixed history: an object is selected, then relabelled out of the selection", 1, func(c *hx.Case) {
			w := opw.New(c)
			defer w.Close()
			k := opw.Ctl{Op: "test", Name: "ctl", Target: "T", Src: []opw.Src{{Op: "test", Kind: "Alpha", Selector: M{"matchLabels": M{"app": "web"}}}}}
			k.Pipe = gen.Pipe{Stages: []ref.Stage{{"@project": M{"metadata": M{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}}}}}
			w.NewOp("test", k)
			w.Ops["test"].Start()
			for _, l := range []string{"web", "db"} {
				m := M{"apiVersion": gen.GVK("Alpha").GroupVersion().String(), "kind": "Alpha", "metadata": M{"name": "a", "namespace": "default", "labels": M{"app": l}}}
				if err := w.Put(m); err != nil {
					c.Failf("%v", err)
				}
				got = hx.Eventually(2*time.Second, func() string { return w.Check(k) })
				if l == "web" && got != "" {
					c.Failf("the object is not processed: %s", got)
				}
			}
		})
		return got
	})
}
