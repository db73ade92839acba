package c06

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/prun"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
)

func render(ds []object.Delta) string {
	s := []string{}
	for _, d := range ds {
		s = append(s, string(d.Type)+" "+ref.Canon(d.Object.Object))
	}
	sort.Strings(s)
	return strings.Join(s, "\n")
}

// TestIsolation: a pipeline whose event objects and results are overwritten after every call
// behaves like one whose are not.
func TestIsolation(t *testing.T) {
	hx.Check(t, "random pipeline and history of 1-20 events (and resynchronizations) run in two instances: in one, every event object and every emitted object is overwritten in depth after the call; the emitted deltas must be identical at every step, and no call may change the event object; non-trivial: at least 4 steps and a non-empty target",
		hx.Scale(8000, 160000), func(c *hx.Case) {
			p := gen.DrawPipe(c.T, gen.PipeConf{MaxSources: 3, Collide: true, Cluster: true})
			r := prun.Start(c, p)
			clean := prun.New(c, p)
			n := gen.Int(c.T, 1, 20, "nevents")
			nonempty := false
			for i := 0; i < n; i++ {
				var got, want []object.Delta
				var err, err2 error
				if gen.Prob(c.T, 2, "sync") {
					c.Step("sync")
					got, err = r.Ev.Sync()
					want, err2 = clean.Sync()
				} else {
					e := r.W.Draw(c.T, false)
					c.Step("%s", e)
					d := e.Delta()
					before := ref.Canon(d.Object.Object)
					got, err = r.Ev.Evaluate(d)
					if after := ref.Canon(d.Object.Object); after != before {
						c.Failf("the event object is changed from %s to %s", before, after)
					}
					gen.Scribble(d.Object.Object)
					want, err2 = clean.Evaluate(e.Delta())
				}
				if err != nil || err2 != nil {
					c.Failf("evaluation failed: %v, %v", err, err2)
				}
				r.Log(got)
				if a, b := render(got), render(want); a != b {
					c.Failf("results differ from those of an undisturbed pipeline with the same history:\n  disturbed:   %s\n  undisturbed: %s", a, b)
				}
				r.T.Apply(got)
				nonempty = nonempty || len(r.T) > 0
				for _, d := range got {
					gen.Scribble(d.Object.Object)
				}
			}
			r.Check()
			c.Class(p.Shape())
			c.ClassIf(p.Collides, "with colliding names")
			c.NonTrivial(nonempty && n >= 4)
		})
}

// TestShared: the caller passes the very same object content in several events; the pipeline must
// not tie them together.
func TestShared(t *testing.T) {
	hx.Check(t, "random pipeline and history where all objects share their spec content by reference with earlier events that the caller keeps modifying in between; the target is compared with a from-scratch evaluation; non-trivial: at least 4 events and a non-empty target",
		hx.Scale(3000, 60000), func(c *hx.Case) {
			p := gen.DrawPipe(c.T, gen.PipeConf{MaxSources: 2, Cluster: true})
			r := prun.Start(c, p)
			n := gen.Int(c.T, 1, 15, "nevents")
			kept := []gen.M{}
			nonempty := false
			for i := 0; i < n; i++ {
				e := r.W.Draw(c.T, false)
				c.Step("%s", e)
				d := e.Delta()
				kept = append(kept, d.Object.Object)
				ds, err := r.Ev.Evaluate(d)
				if err != nil {
					c.Failf("evaluation failed: %v", err)
				}
				r.T.Apply(ds)
				r.Check()
				for _, x := range ds {
					kept = append(kept, x.Object.Object)
				}
				nonempty = nonempty || len(r.T) > 0
				gen.Scribble(kept[gen.Int(c.T, 0, len(kept)-1, "which")])
			}
			c.NonTrivial(nonempty && n >= 4)
		})
}

// TestGatherOrder: lists of gathered values do not depend on the iteration order of internal maps.
func TestGatherOrder(t *testing.T) {
	hx.Check(t, "a gathering pipeline (followed by an unwinding in a third of the cases) over 3-8 objects that gather numbers of both types, strings and other values in 1-2 groups; four pipelines are fed the same history of additions, updates and deletions: their emitted deltas must be the same, order of lists included; non-trivial: a group of at least 3 values",
		hx.Scale(1500, 40000), func(c *hx.Case) {
			p := gen.Pipe{Kinds: []string{"Alpha"}, Stages: []ref.Stage{
				{"@project": gen.M{"metadata": gen.M{"name": "$.spec.g", "namespace": "ns"}, "g": "$.spec.g", "v": "$.spec.v"}},
				{"@gather": gen.L{"$.g", "$.v"}},
			}}
			if gen.Prob(c.T, 5, "unwind") {
				p.Stages = append(p.Stages, ref.Stage{"@unwind": "$.v"})
			}
			// more pipelines than two make it likely that one of them sees another order
			a, b := prun.New(c, p), []pipeline.Evaluator{prun.New(c, p), prun.New(c, p), prun.New(c, p)}
			c.Step("pipeline %s", ref.Canon(p.Stages))
			sizes := map[string]int{}
			eval := func(d object.Delta) {
				c.Step("%s %s", d.Type, ref.Canon(d.Object.Object))
				copies := []object.Object{}
				for range b {
					copies = append(copies, object.DeepCopy(d.Object))
				}
				x, err := a.Evaluate(d)
				if err != nil {
					c.Failf("evaluation failed: %v", err)
				}
				want := render(x)
				for i, e := range b {
					y, err := e.Evaluate(object.Delta{Type: d.Type, Object: copies[i]})
					if err != nil {
						c.Failf("evaluation failed: %v", err)
					}
					if got := render(y); got != want {
						c.Failf("two pipelines with the same history differ:\n%s\n  and\n%s", want, got)
					}
				}
			}
			n := gen.Int(c.T, 3, 8, "objects")
			objs := []object.Object{}
			mixed := gen.Bool(c.T, "mixed")
			draw := func(i int) object.Object {
				var v any
				if mixed && gen.Prob(c.T, 4, "other") {
					v = gen.Pick[any](c.T, "v", "10", "", "b", true, gen.L{int64(1)}, gen.M{"a": int64(1)})
				} else {
					v = gen.Pick[any](c.T, "v", int64(2), int64(3), int64(10), int64(20), int64(100), int64(-1), int64(-20), 2.5, 9.5, 1.5, -3.5, 19.25, 100.5)
				}
				g := gen.Pick(c.T, "g", "g1", "g1", "g2")
				sizes[g]++
				o := gen.Obj(gen.M{"metadata": gen.M{"name": fmt.Sprintf("n%d", i), "namespace": "ns"}, "spec": gen.M{"g": g, "v": v}})
				o.SetGroupVersionKind(gen.GVK("Alpha"))
				return o
			}
			for i := 0; i < n; i++ {
				o := draw(i)
				objs = append(objs, o)
				eval(object.Delta{Type: object.Upserted, Object: object.DeepCopy(o)})
			}
			for i, k := 0, gen.Int(c.T, 0, 4, "changes"); i < k; i++ {
				j := gen.Int(c.T, 0, n-1, "which")
				if objs[j] == nil {
					continue
				}
				if gen.Prob(c.T, 5, "delete") {
					eval(object.Delta{Type: object.Deleted, Object: object.DeepCopy(objs[j])})
					objs[j] = nil
				} else {
					objs[j] = draw(j)
					eval(object.Delta{Type: object.Upserted, Object: object.DeepCopy(objs[j])})
				}
			}
			c.NonTrivial(sizes["g1"] >= 3 || sizes["g2"] >= 3)
		})
}
