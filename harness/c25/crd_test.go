package c25

import (
	"context"
	"fmt"
	"os"
	"strings"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/kube"
	"dcverif/opw"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/client-go/util/retry"
	"sigs.k8s.io/controller-runtime/pkg/client"
	runtimeConfig "sigs.k8s.io/controller-runtime/pkg/config"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/kubernetes/controllers"
	"github.com/l7mp/dcontroller/pkg/manager"
)

func TestMain(m *testing.M) {
	rc := m.Run()
	kube.Stop()
	os.Exit(rc)
}

const crdRule = "histories of 5-14 steps on Operator resources of a real Kubernetes API server: operators a, b and c are created, updated, deleted, and deleted and recreated at once (also before the operator controller starts), " +
	"with 1-3 controllers on configmaps, secrets and views, some of them broken, while users change the objects. In the end the configmaps and views are what the present operators prescribe, the status of each operator says for its " +
	"present generation which controllers are ready, and what removed operators have written stays as it is. Non-trivial: some operator was updated or deleted while running and a present one has results."

type crd struct {
	ctls   []kube.Ctl
	all    []opv1a1.Controller
	broken map[string]bool
}

func (d *drawer) crd(c *hx.Case, name string, fixed bool) *crd {
	s := &crd{broken: map[string]bool{}}
	for i, n := 0, gen.Int(c.T, 1, 2, "nctl"); i < n; i++ {
		d.version++
		k := kube.Draw(c, name, fmt.Sprintf("ctl%d", i), fmt.Sprintf("t%d", d.version), fixed)
		s.ctls = append(s.ctls, k)
		s.all = append(s.all, k.Spec(c))
		c.Class(k.Form)
	}
	if gen.Prob(c.T, 4, "broken") {
		d.version++
		k := kube.Draw(c, name, fmt.Sprintf("broken%d", d.version), fmt.Sprintf("t%d", d.version), fixed)
		conf := k.Spec(c)
		// the API server refuses the other forms
		if gen.Bool(c.T, "selector") {
			conf.Sources[0].LabelSelector = &metav1.LabelSelector{MatchExpressions: []metav1.LabelSelectorRequirement{{Key: "a", Operator: "NoSuch"}}}
		} else if err := gen.Convert("NoSuchPredicate", &conf.Sources[0].Predicate); err != nil {
			c.Fatalf("harness: %v", err)
		}
		s.broken[conf.Name] = true
		at := gen.Int(c.T, 0, len(s.all), "at")
		s.all = append(s.all[:at:at], append([]opv1a1.Controller{conf}, s.all[at:]...)...)
		c.Class("broken")
	}
	return s
}

func (s *crd) String() string {
	r := ""
	for _, k := range s.all {
		r += fmt.Sprintf(" [%s broken=%v]", k.Name, s.broken[k.Name])
	}
	for _, k := range s.ctls {
		r += "\n    " + k.String()
	}
	return r
}

func crdStatus(name string, s *crd) string {
	o := &opv1a1.Operator{}
	if err := kube.Client.Get(context.Background(), client.ObjectKey{Name: name}, o); err != nil {
		return fmt.Sprintf("cannot get operator %s: %v", name, err)
	}
	if len(o.Status.Controllers) != len(s.all) {
		return fmt.Sprintf("%d controllers expected in the status of %s: %s", len(s.all), name, hx.J(o.Status))
	}
	for i, k := range s.all {
		x := o.Status.Controllers[i]
		ok := ready(x) == metav1.ConditionTrue && len(x.LastErrors) == 0
		if s.broken[k.Name] {
			ok = ready(x) == metav1.ConditionFalse && len(x.LastErrors) > 0
		} else if ready(x) == metav1.ConditionUnknown { // a write has failed in the first place
			ok = len(x.LastErrors) > 0
			for _, e := range x.LastErrors {
				ok = ok && strings.HasPrefix(e, "cannot update target ")
			}
		}
		if x.Name != k.Name || !ok {
			return fmt.Sprintf("controller %s of %s (broken: %v) has status %s", k.Name, name, s.broken[k.Name], hx.J(x))
		}
		if g := x.Conditions[0].ObservedGeneration; g != o.Generation {
			return fmt.Sprintf("the status of controller %s of %s is about generation %d, the present one is %d", k.Name, name, g, o.Generation)
		}
	}
	return ""
}

func TestCRD(t *testing.T) {
	kube.Start(t)
	bg := context.Background()
	hx.Check(t, crdRule, hx.Whole(40, 1200), func(c *hx.Case) {
		d := &drawer{}
		w := kube.New(c)
		defer w.Close()
		off := true
		oc, err := controllers.NewOpController(kube.Cfg, w.API.Cache, manager.Options{
			Scheme:                 kube.Scheme,
			HealthProbeBindAddress: "0",
			Metrics:                metricsserver.Options{BindAddress: "0"},
			Controller:             runtimeConfig.Controller{SkipNameValidation: &off},
			Logger:                 hx.Log(),
		})
		if err != nil {
			c.Failf("cannot create the operator controller: %v", err)
		}
		h := &host{c: c, oc: oc}
		defer h.stop()
		started := false
		start := func() {
			c.Step("start")
			h.start()
			started = true
		}

		names := []string{"a", "b", "c.d"}
		present := map[string]*crd{}
		dead := []kube.Ctl{}
		replaced := 0
		ctls := func() []kube.Ctl {
			r := []kube.Ctl{}
			for _, n := range names {
				if s, ok := present[n]; ok {
					r = append(r, s.ctls...)
				}
			}
			return r
		}
		bury := func(name string) {
			if s, ok := present[name]; ok {
				dead = append(dead, s.ctls...)
				if started {
					replaced++
				}
				delete(present, name)
			}
		}
		do := func(what string, err error) {
			if err != nil {
				c.Fatalf("harness: %s: %v", what, err)
			}
		}
		check := func(what string) {
			m := hx.Eventually(opw.Limit, func() string {
				for i := 0; i < 2; i++ {
					if m := h.alive(); m != "" {
						return m
					}
					for _, n := range names {
						if s, ok := present[n]; ok {
							if m := crdStatus(n, s); m != "" {
								return m
							}
						}
					}
					if m := w.Check(ctls()...); m != "" {
						return m
					}
					time.Sleep(20 * time.Millisecond)
				}
				return ""
			})
			if m != "" {
				c.Failf("%s: %s", what, m)
			}
		}

		if gen.Bool(c.T, "fixed") {
			w.Fill()
		}
		for i, n := 0, gen.Pick(c.T, "npre", 3, 6, 0); i < n; i++ {
			w.Change()
		}
		if gen.Bool(c.T, "early") {
			start()
		}
		for i, n := 0, gen.Pick(c.T, "n", 8, 11, 5, 14); i < n; i++ {
			name := gen.Pick(c.T, "op", names...)
			switch op := gen.Int(c.T, 0, 9, "step"); {
			case op < 4: // create or update
				s := d.crd(c, name, w.Fixed)
				if _, ok := present[name]; !ok {
					c.Step("%d create operator %s: %s", i, name, s)
					do("create", kube.Client.Create(bg, &opv1a1.Operator{ObjectMeta: metav1.ObjectMeta{Name: name}, Spec: opv1a1.OperatorSpec{Controllers: s.all}}))
				} else {
					c.Step("%d update operator %s: %s", i, name, s)
					do("update", retry.RetryOnConflict(retry.DefaultBackoff, func() error {
						o := &opv1a1.Operator{}
						if err := kube.Client.Get(bg, client.ObjectKey{Name: name}, o); err != nil {
							return err
						}
						o.Spec.Controllers = s.all
						return kube.Client.Update(bg, o)
					}))
				}
				bury(name)
				present[name] = s
			case op < 6: // delete, and recreate
				if _, ok := present[name]; !ok {
					continue
				}
				do("delete", kube.Client.Delete(bg, &opv1a1.Operator{ObjectMeta: metav1.ObjectMeta{Name: name}}))
				bury(name)
				if gen.Bool(c.T, "again") {
					s := d.crd(c, name, w.Fixed)
					c.Step("%d delete and recreate operator %s: %s", i, name, s)
					do("create", kube.Client.Create(bg, &opv1a1.Operator{ObjectMeta: metav1.ObjectMeta{Name: name}, Spec: opv1a1.OperatorSpec{Controllers: s.all}}))
					present[name] = s
				} else {
					c.Step("%d delete operator %s", i, name)
				}
			case op < 9:
				for j, m := 0, gen.Int(c.T, 1, 4, "nchanges"); j < m; j++ {
					w.Change()
				}
			default:
				if started {
					check(fmt.Sprintf("before step %d", i))
				}
			}
			if !started && gen.Prob(c.T, 4, "start") {
				start()
			}
			if p := gen.Pick(c.T, "pause", 0, 0, 0, 3, 20); p > 0 {
				time.Sleep(time.Duration(p) * time.Millisecond)
			}
		}
		if !started {
			start()
		}
		check("in the end")
		for _, n := range names {
			if _, ok := present[n]; !ok {
				if m := hx.Eventually(opw.Limit, func() string {
					if h.oc.GetOperator(n) != nil {
						return fmt.Sprintf("operator %s is present after its removal", n)
					}
					return ""
				}); m != "" {
					c.Failf("%s", m)
				}
			}
		}
		results := 0
		for _, k := range ctls() {
			results += len(w.Traces(k))
		}
		c.NonTrivial(replaced > 0 && results > 0)

		// removed operators do nothing any more
		if len(dead) > 0 {
			time.Sleep(20 * time.Millisecond)
			seen := map[string]map[string]string{}
			for _, k := range dead {
				seen[k.Tag] = w.Traces(k)
			}
			still := map[string]int{}
			for r := 0; r < 5; r++ {
				for j := 0; j < 4; j++ {
					w.Change()
				}
				check(fmt.Sprintf("in round %d", r))
				for _, k := range dead {
					x := w.Traces(k)
					if m := kube.Worked(seen[k.Tag], x); m != "" {
						if still[k.Tag]++; still[k.Tag] >= 3 {
							c.Failf("the removed %s keeps writing: %s", k, m)
						}
					}
					seen[k.Tag] = x
				}
			}
			c.Class("removed controllers observed")
		}
	})
}
