package c03

import (
	"sort"
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/prun"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/object"
)

func keys(t gen.Target) []string {
	ks := make([]string, 0, len(t))
	for k := range t {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func snap(t gen.Target) map[string]string {
	r := map[string]string{}
	for k, v := range t {
		r[k] = ref.Canon(v)
	}
	return r
}

// drift changes one object of the target behind the pipeline's back: in the real target (the model)
// and in what the pipeline knows about it, as a target watch would.
func drift(r *prun.Run) string {
	store := r.Ev.GetTargetCache()
	ks := keys(r.T)
	c := r.C
	what := gen.Int(c.T, 0, 3, "drift")
	if len(ks) == 0 {
		what = 3
	}
	switch what {
	case 0: // lost
		k := gen.Pick(c.T, "dk", ks...)
		if err := store.Delete(obj(r.T[k])); err != nil {
			c.Fatalf("harness: %v", err)
		}
		delete(r.T, k)
		return "lost " + k
	case 1: // content changed
		k := gen.Pick(c.T, "dk", ks...)
		m := ref.CopyMap(r.T[k])
		m["spec"] = gen.M{"drifted": int64(gen.Int(c.T, 0, 3, "dv"))}
		if err := store.Update(obj(m)); err != nil {
			c.Fatalf("harness: %v", err)
		}
		r.T[k] = m
		return "changed " + k
	case 2: // all lost
		for _, k := range ks {
			if err := store.Delete(obj(r.T[k])); err != nil {
				c.Fatalf("harness: %v", err)
			}
			delete(r.T, k)
		}
		return "all lost"
	default: // extra object
		name := gen.Pick(c.T, "dn", "extra", "n0", "n1")
		k := "default/" + name
		m := gen.M{"apiVersion": prun.Target.GroupVersion().String(), "kind": prun.Target.Kind,
			"metadata": gen.M{"name": name, "namespace": "default"}, "spec": gen.M{"extra": int64(1)}}
		if err := store.Add(obj(m)); err != nil {
			c.Fatalf("harness: %v", err)
		}
		r.T[k] = m
		return "extra " + k
	}
}

func obj(m gen.M) object.Object { return gen.Obj(ref.CopyMap(m)) }

func sync(r *prun.Run) {
	c := r.C
	before := snap(r.T)
	want := r.Required()
	ds, err := r.Ev.Sync()
	if err != nil {
		c.Failf("resynchronization failed: %v", err)
	}
	r.Log(ds)
	seen := map[string]bool{}
	ups := false
	for _, d := range ds {
		k := d.Object.GetNamespace() + "/" + d.Object.GetName()
		if seen[k] {
			c.Failf("several deltas for %s in one resynchronization", k)
		}
		seen[k] = true
		if d.Object.GroupVersionKind() != prun.Target {
			c.Failf("delta object has type %s", d.Object.GroupVersionKind())
		}
		switch d.Type {
		case object.Deleted:
			if _, ok := before[k]; !ok {
				c.Failf("resynchronization deletes %s which is not in the target", k)
			}
			if len(want[k]) > 0 {
				c.Failf("resynchronization deletes %s which belongs to the target", k)
			}
			if ups {
				c.Failf("deletion of %s after an upsert", k)
			}
		case object.Upserted:
			ups = true
			if len(want[k]) == 0 {
				c.Failf("resynchronization upserts %s which does not belong to the target", k)
			}
		default:
			c.Failf("delta of type %s", d.Type)
		}
	}
	r.T.Apply(ds)
	r.Check()
}

func TestSync(t *testing.T) {
	hx.Check(t, "random pipeline and history of 1-16 steps: events, target drift (lost, changed, extra objects) and resynchronizations, immediately repeated half of the time; non-trivial: a resynchronization that repairs a drift or finds a non-empty target, followed by an event",
		hx.Scale(9000, 200000), func(c *hx.Case) {
			p := gen.DrawPipe(c.T, gen.PipeConf{MaxSources: 3, Collide: true, Cluster: true})
			r := prun.Start(c, p)
			n := gen.Int(c.T, 1, 16, "nsteps")
			drifted, synced, after := false, false, false
			for i := 0; i < n; i++ {
				switch gen.Int(c.T, 0, 9, "step") {
				case 0, 1, 2:
					c.Step("sync")
					sync(r)
					synced = synced || drifted || len(r.T) > 0
					c.ClassIf(drifted, "sync after drift")
					drifted = false
					if gen.Bool(c.T, "again") {
						c.Step("sync again")
						was := snap(r.T)
						sync(r)
						now := snap(r.T)
						for k, v := range now {
							if was[k] != v {
								c.Failf("repeated resynchronization changes %s from %s to %s", k, was[k], v)
							}
						}
					}
				case 3:
					c.Step("drift: %s", drift(r))
					drifted = true
				default:
					e := r.W.Draw(c.T, false)
					ds := r.Eval(e)
					_ = ds
					if !drifted {
						r.Check()
						after = after || synced
					}
				}
			}
			c.Step("final sync")
			sync(r)
			c.Class(p.Shape())
			c.NonTrivial(synced && after)
		})
}
