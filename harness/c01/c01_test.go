package c01

import (
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/prun"
	"dcverif/ref"
)

func TestIncremental(t *testing.T) {
	hx.Check(t, "typed random pipeline over 1-3 sources and a random history of 1-25 events; after every event the accumulated target is compared with a from-scratch evaluation; non-trivial: at least one stage, 4 events and a non-empty target at some point",
		hx.Scale(14000, 300000), func(c *hx.Case) {
			p := gen.DrawPipe(c.T, gen.PipeConf{MaxSources: 3, Collide: true, Cluster: true})
			r := prun.Start(c, p)
			n := gen.Int(c.T, 1, 25, "nevents")
			nonempty, deletes := false, 0
			for i := 0; i < n; i++ {
				e := r.W.Draw(c.T, false)
				if e.Type == "Deleted" {
					deletes++
				}
				r.Eval(e)
				r.Check()
				nonempty = nonempty || len(r.T) > 0
			}
			if gen.Bool(c.T, "drain") {
				for e, ok := r.W.DeleteAll(); ok; e, ok = r.W.DeleteAll() {
					r.Eval(e)
					r.Check()
				}
				if len(r.T) != 0 {
					c.Failf("sources are empty but the target is not: %s", ref.Canon(r.T))
				}
			}
			c.Class(p.Shape())
			c.ClassIf(nonempty, "non-empty target")
			c.ClassIf(deletes > 0, "with deletes")
			c.ClassIf(p.Collides, "with colliding names")
			c.NonTrivial(nonempty && n >= 4 && len(p.Stages) > 0)
		})
}
