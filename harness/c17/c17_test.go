package c17

import (
	"fmt"
	"strings"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/opw"
	"dcverif/ref"
)

type M = gen.M
type L = gen.L

const rule = "1-3 controllers of 1-2 operators over shared views, each with a generated pipeline over base views or results of earlier controllers, with " +
	"namespace and label filters on the sources; 5-30 changes of the base views, some before the operators are started, the others while they " +
	"are being started or run, issued from 1-3 goroutines with random pauses. After each phase every target view must " +
	"become and stay what reference evaluation of the pipelines on the present sources gives. Non-trivial: some target is not empty at some check and at least 5 changes ran with the operators."

func TestConverge(t *testing.T) {
	hx.Check(t, rule, hx.Scale(1200, 40000), func(c *hx.Case) {
		ks, labelled, lm := opw.Draw(c)
		w := opw.New(c)
		defer w.Close()
		model := gen.NewWorld([]string{"Alpha", "Beta", "Gamma"}, lm)

		// before start
		pre := opw.History(c, model, labelled, gen.Pick(c.T, "npre", 4, 8, 12, 2, 0))
		for _, x := range pre {
			c.Step("before start: %s", x)
		}
		if m := w.Play(pre, 1); m != "" {
			c.Failf("%s", m)
		}
		ops := []string{}
		slow, seed := gen.Bool(c.T, "slow"), int64(gen.Int(c.T, 0, 1<<30, "seed"))
		c.ClassIf(slow, "slow writes")
		if slow {
			c.Step("writes are delayed at random")
		}
		for _, n := range []string{"test", "aux"} {
			mine := []opw.Ctl{}
			for _, k := range ks {
				if k.Op == n {
					mine = append(mine, k)
				}
			}
			if len(mine) > 0 {
				ops = append(ops, n)
				if slow {
					w.Ops[n] = w.NewSlow(n, opw.Pauses(seed, 2*time.Millisecond), mine...)
				} else {
					w.NewOp(n, mine...)
				}
			}
		}
		late := len(ops) > 1 && gen.Bool(c.T, "late")
		filled := false
		phases := gen.Int(c.T, 1, 3, "phases")
		total := 0
		for p := 0; p < phases; p++ {
			writers := gen.Int(c.T, 1, 3, "writers")
			xs := opw.History(c, model, labelled, gen.Pick(c.T, "n", 8, 12, 5, 20, 1))
			if p == phases-1 && gen.Prob(c.T, 4, "clear") {
				for {
					e, ok := model.DeleteAll()
					if !ok {
						break
					}
					xs = append(xs, opw.Change{Del: true, Obj: e.Object})
				}
			}
			total += len(xs)
			for _, x := range xs {
				c.Step("phase %d with %d writers: %s", p, writers, x)
			}
			if p == 0 {
				w.Ops[ops[0]].Start()
				if len(ops) > 1 && !late {
					w.Ops[ops[1]].Start()
				}
			}
			if p == 1 && late {
				w.Ops[ops[1]].Start()
			}
			if m := w.Play(xs, writers); m != "" {
				c.Failf("%s", m)
			}
			// the base views hold what was written
			for _, kind := range model.Kinds {
				got := w.List("test", kind)
				if ref.Canon(got) != ref.Canon(model.Objs[kind]) {
					c.Failf("view %s: want %s, got %s", kind, ref.Canon(model.Objs[kind]), ref.Canon(got))
				}
			}
			check := ks
			if late && p == 0 {
				if phases > 1 {
					// the second operator does not run yet: the first one may depend on it
					check = nil
				} else {
					w.Ops[ops[1]].Start()
				}
			}
			if m := w.Converged(check, time.Duration(gen.Pick(c.T, "stay", 3, 3, 15))*time.Millisecond); m != "" {
				c.Failf("no convergence after phase %d: %s\nerrors: %s", p, m, w.Errors())
			}
			for _, k := range check {
				filled = filled || len(w.List(k.Op, k.Target)) > 0
			}
		}
		c.NonTrivial(filled && total >= 5)
		c.Class(fmt.Sprintf("controllers=%d", len(ks)))
		c.ClassIf(len(ops) > 1, "two operators")
		c.ClassIf(late, "second operator started late")
		chained := false
		for _, k := range ks {
			for _, s := range k.Src {
				chained = chained || strings.HasPrefix(s.Kind, "T")
			}
			c.Class(k.Pipe.Shape())
		}
		c.ClassIf(chained, "chained")
		c.ClassIf(len(labelled) > 0, "label filter")
	})
}
