package c02

import (
	"fmt"
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/prun"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/object"
)

func key(o object.Object) string { return o.GetNamespace() + "/" + o.GetName() }

// wellFormed checks the shape of the emitted deltas against the target before them.
func wellFormed(c *hx.Case, ds []object.Delta, before gen.Target) {
	seen := map[string]bool{}
	upsert := false
	for _, d := range ds {
		if d.Object == nil {
			c.Failf("delta without an object")
		}
		k := key(d.Object)
		if seen[k] {
			c.Failf("several deltas for %s in one evaluation", k)
		}
		seen[k] = true
		switch d.Type {
		case object.Upserted:
			upsert = true
		case object.Deleted:
			if upsert {
				c.Failf("deletion of %s follows an upsert", k)
			}
			if _, ok := before[k]; !ok {
				c.Failf("deletion of %s which the target does not hold", k)
			}
		default:
			c.Failf("delta of type %s", d.Type)
		}
		if d.Object.GroupVersionKind() != prun.Target {
			c.Failf("delta object has type %s", d.Object.GroupVersionKind())
		}
		if d.Object.GetName() == "" {
			c.Failf("delta object without a name")
		}
	}
}

func clone(t gen.Target) gen.Target {
	r := gen.Target{}
	for k, v := range t {
		r[k] = v
	}
	return r
}

// single tells the canonical form of the only document mapping to the key.
func single(w gen.Want, k string, sortLists bool) (string, bool) {
	if len(w[k]) != 1 {
		return "", false
	}
	return gen.Norm(w[k][0], sortLists), true
}

func unchanged(c *hx.Case, ds []object.Delta, old, new gen.Want, sortLists bool) {
	for _, d := range ds {
		k := key(d.Object)
		a, ok1 := single(old, k, sortLists)
		b, ok2 := single(new, k, sortLists)
		if ok1 && ok2 && a == b {
			c.Failf("spurious delta %s for %s: the event leaves this object unchanged", d.Type, k)
		}
		if len(old[k]) == 0 && len(new[k]) == 0 {
			c.Failf("delta %s for %s which is neither in the old nor in the new target", d.Type, k)
		}
	}
}

// corrupt makes the content ill typed in one place.
func corrupt(c *hx.Case, m gen.M) string {
	spec := m["spec"].(gen.M)
	switch gen.Int(c.T, 0, 4, "corrupt") {
	case 0:
		spec["a"] = "bad"
		return "spec.a"
	case 1:
		spec["l"] = int64(5)
		return "spec.l"
	case 2:
		spec["b"] = gen.M{"x": int64(1)}
		return "spec.b"
	case 3:
		spec["opt"] = gen.M{"x": int64(1)}
		return "spec.opt"
	default:
		m["metadata"].(gen.M)["labels"] = "bad"
		return "labels"
	}
}

// step feeds an event that the model has already applied; old is the model before the event.
func step(c *hx.Case, r *prun.Run, e gen.Event, old *gen.World, before gen.Target) {
	c.Step("%s", e)
	_, existed := old.Objs[e.Kind][e.Key]
	_, rerr := ref.RunPipeline(r.P.Stages, r.W.Sources())
	ds, err := r.Ev.Evaluate(e.Delta())
	if err != nil {
		c.Step("  -> error %v", err)
		if rerr == nil {
			c.Failf("a valid event is rejected: %v", err)
		}
		if len(ds) > 0 {
			c.Failf("a rejected event emits deltas")
		}
		r.W = old
		c.Class("rejected event")
		if !existed && gen.Bool(c.T, "delbad") {
			// the rejected object goes away
			d := e
			d.Type = object.Deleted
			c.Step("%s", d)
			if ds, _ := r.Ev.Evaluate(d.Delta()); len(ds) > 0 {
				c.Failf("deleting an object that was never accepted emits deltas")
			}
		}
		return
	}
	r.Log(ds)
	if rerr != nil {
		c.Failf("ill-typed object accepted, reference evaluation says: %v", rerr)
	}
	if m := r.T.Apply(ds); m != "" {
		c.Failf("%s", m)
	}
	wellFormed(c, ds, before)
	if e.Note == "(no-op)" && len(ds) > 0 {
		c.Failf("an event without a content change emits %d deltas", len(ds))
	}
	unchanged(c, ds, r.Want, r.Required(), r.P.Gathered)
}

func TestDeltas(t *testing.T) {
	hx.Check(t, "random pipeline and history of 1-20 events, a quarter of them no-ops, stale deletes, deletions of unknown objects or ill-typed objects that may be rejected; every returned delta list is checked for form, order and minimality and later results for independence of rejected events; non-trivial: a non-empty target and a no-op or rejected event",
		hx.Scale(9000, 200000), func(c *hx.Case) {
			p := gen.DrawPipe(c.T, gen.PipeConf{MaxSources: 3, Collide: true, Cluster: true})
			r := prun.Start(c, p)
			n := gen.Int(c.T, 1, 20, "nevents")
			nonempty, special := false, false
			for i := 0; i < n; i++ {
				before := clone(r.T)
				switch gen.Int(c.T, 0, 9, "class") {
				case 0: // delete of an unknown object
					kind := gen.Pick(c.T, "kind", p.Kinds...)
					m := gen.SrcContent(c.T, kind, gen.GVK(kind).Group, "default", "unknown", p.ListMaps)
					e := gen.Event{Type: object.Deleted, Kind: kind, Key: "default/unknown", Object: m, Note: "(unknown)"}
					c.Step("%s", e)
					ds, _ := r.Ev.Evaluate(e.Delta())
					if len(ds) > 0 {
						c.Failf("deleting an unknown object emits %d deltas", len(ds))
					}
					special = true
				default:
					var e gen.Event
					if old := r.W.Clone(); gen.Prob(c.T, 7, "bad") {
						e = r.W.Draw(c.T, false)
						if e.Type != object.Deleted && e.Note == "" {
							e.Note = "(bad " + corrupt(c, e.Object) + ")"
							r.W.Objs[e.Kind][e.Key] = ref.CopyMap(e.Object)
						}
						step(c, r, e, old, before)
						special = true
					} else {
						e = r.W.Draw(c.T, false)
						special = special || e.Note != ""
						step(c, r, e, old, before)
					}
				}
				r.Check()
				nonempty = nonempty || len(r.T) > 0
			}
			c.Class(p.Shape())
			c.NonTrivial(nonempty && special)
		})
}

// TestGatherUnaffected: with a gather as the last stage, the groups of documents that an event does
// not touch see no deltas.
func TestGatherUnaffected(t *testing.T) {
	hx.Check(t, "single source, optional select, gather as last stage: an event only touches the groups of the old and the new version of its object; non-trivial: two groups with at least two members",
		hx.Scale(4000, 80000), func(c *hx.Case) {
			p := gen.Pipe{Kinds: []string{"Alpha"}, Gathered: true}
			p.Stages = append(p.Stages, ref.Stage{"@gather": gen.L{"$.spec.b", gen.Pick(c.T, "v", "$.spec.a", "$.spec.m.x")}})
			r := prun.Start(c, p)
			n := gen.Int(c.T, 1, 20, "nevents")
			big := false
			group := func(k string) string {
				m, ok := r.W.Objs["Alpha"][k]
				if !ok {
					return ""
				}
				return fmt.Sprint(m["spec"].(gen.M)["b"])
			}
			for i := 0; i < n; i++ {
				groups := map[string]string{}
				for k := range r.W.Objs["Alpha"] {
					groups[k] = group(k)
				}
				e := r.W.Draw(c.T, false)
				ds := r.Eval(e)
				touched := map[string]bool{groups[e.Key]: true, group(e.Key): true}
				for _, d := range ds {
					g := fmt.Sprint(d.Object.Object["spec"].(gen.M)["b"])
					if !touched[g] {
						c.Failf("delta %s for %s of group %q which the event does not touch", d.Type, key(d.Object), g)
					}
				}
				size := map[string]int{}
				for k := range r.W.Objs["Alpha"] {
					size[group(k)]++
				}
				// one object per group, named after one of its members
				got := map[string]string{}
				for k, m := range r.T {
					g := fmt.Sprint(m["spec"].(gen.M)["b"])
					if _, ok := got[g]; ok {
						c.Failf("several objects for group %q", g)
					}
					got[g] = k
					if group(k) != g {
						c.Failf("the object of group %q is named %q which is not a member", g, k)
					}
				}
				nbig := 0
				for g, s := range size {
					if got[g] == "" {
						c.Failf("no object for group %q", g)
					}
					if s > 1 {
						nbig++
					}
				}
				if len(got) != len(size) {
					c.Failf("%d objects for %d groups", len(got), len(size))
				}
				big = big || nbig > 1
			}
			c.NonTrivial(big)
		})
}
