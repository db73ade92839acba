package c17

import (
	"context"
	"fmt"
	"os"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/kube"
	"dcverif/opw"

	"github.com/l7mp/dcontroller/pkg/operator"
)

func TestMain(m *testing.M) {
	rc := m.Run()
	kube.Stop()
	os.Exit(rc)
}

const nativeRule = "an operator with 1-3 controllers on a real Kubernetes API server: configmaps, secrets and views as sources (with label and namespace filters, conditions, joins), configmaps, views and patched configmaps as targets; " +
	"5-25 creations, patches, deletions and recreations by a user while it runs. In the end the configmaps and views are exactly the users' content, the due patches and the due results. Non-trivial: a controller has a result."

func TestNative(t *testing.T) {
	kube.Start(t)
	hx.Check(t, nativeRule, hx.Whole(60, 1500), func(c *hx.Case) {
		w := kube.New(c)
		defer w.Close()
		ks := []kube.Ctl{}
		fixed := gen.Bool(c.T, "fixed")
		for i, n := 0, gen.Int(c.T, 1, 3, "nctl"); i < n; i++ {
			ks = append(ks, kube.Draw(c, "test", fmt.Sprintf("ctl%d", i), fmt.Sprintf("t%d", i), fixed))
			c.Step("%s", ks[i])
			c.Class(ks[i].Form)
		}
		if fixed {
			w.Fill()
		}
		for i, n := 0, gen.Pick(c.T, "npre", 0, 3, 6); i < n; i++ {
			w.Change()
		}
		c.Step("start")
		op, err := operator.New("test", kube.Cfg, operator.Options{Cache: w.API.Cache, Logger: hx.Log()})
		if err != nil {
			c.Failf("cannot create the operator: %v", err)
		}
		for _, k := range ks {
			if err := op.AddDeclarativeController(k.Spec(c)); err != nil {
				c.Failf("controller rejected: %v", err)
			}
		}
		ctx, cancel := context.WithCancel(context.Background())
		done := make(chan error, 1)
		go func() { done <- op.Start(ctx) }()
		defer func() {
			cancel()
			c.MustReturn("stopping the operator", opw.Limit, func() { <-done })
		}()
		for p, n := 0, gen.Int(c.T, 1, 2, "phases"); p < n; p++ {
			if p > 0 || gen.Bool(c.T, "first") {
				if m := hx.Eventually(opw.Limit, func() string { return w.Check(ks...) }); m != "" {
					c.Failf("no convergence before phase %d: %s", p, m)
				}
			}
			for i, n := 0, gen.Pick(c.T, "n", 8, 5, 12, 25); i < n; i++ {
				w.Change()
				if p := gen.Pick(c.T, "pause", 0, 0, 0, 1, 5, 20); p > 0 {
					time.Sleep(time.Duration(p) * time.Millisecond)
				}
			}
		}
		if m := hx.Eventually(opw.Limit, func() string {
			if d := w.Check(ks...); d != "" {
				return d
			}
			time.Sleep(30 * time.Millisecond)
			return w.Check(ks...)
		}); m != "" {
			c.Failf("no convergence: %s\nstatus: %s", m, hx.J(op.GetStatus(1)))
		}
		results := 0
		for _, k := range ks {
			results += len(w.Traces(k))
		}
		c.NonTrivial(results > 0)
	})
}
