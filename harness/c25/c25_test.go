package c25

import (
	"context"
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/opw"
	"dcverif/ref"
	"dcverif/rst"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	runtimeConfig "sigs.k8s.io/controller-runtime/pkg/config"
	metricsserver "sigs.k8s.io/controller-runtime/pkg/metrics/server"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/kubernetes/controllers"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/operator"
)

type M = gen.M
type L = gen.L

// host is an operator controller on a shared view store.
type host struct {
	c      *hx.Case
	w      *opw.World
	oc     *controllers.OpController
	cancel context.CancelFunc
	done   chan error
}

func newHost(c *hx.Case, w *opw.World) *host {
	off := true
	oc, err := controllers.NewOpController(nil, w.Store, manager.Options{
		HealthProbeBindAddress: "0",
		Metrics:                metricsserver.Options{BindAddress: "0"},
		Controller:             runtimeConfig.Controller{SkipNameValidation: &off},
		Logger:                 hx.Log(),
	})
	if err != nil {
		c.Failf("cannot create the operator controller: %v", err)
	}
	return &host{c: c, w: w, oc: oc}
}

func (h *host) start() {
	ctx, cancel := context.WithCancel(context.Background())
	h.cancel, h.done = cancel, make(chan error, 1)
	go func() { h.done <- h.oc.Start(ctx) }()
}

// alive tells whether the operator controller still runs.
func (h *host) alive() string {
	if h.done == nil {
		return ""
	}
	select {
	case err := <-h.done:
		h.done <- err
		return fmt.Sprintf("the operator controller has stopped: %v", err)
	default:
		return ""
	}
}

func (h *host) stop() {
	if h.cancel == nil {
		return
	}
	h.cancel()
	select {
	case err := <-h.done:
		if err != nil {
			h.c.Failf("the operator controller stopped with an error: %v", err)
		}
	case <-time.After(opw.Limit):
		h.c.Failf("the operator controller does not stop")
	}
}

// spec is a version of an operator.
type spec struct {
	name   string
	ctls   []opw.Ctl // the valid ones
	all    []opv1a1.Controller
	broken map[string]bool
}

func (s *spec) String() string {
	r := ""
	for _, k := range s.ctls {
		r += "\n    " + k.String()
	}
	bs := []string{}
	for b := range s.broken {
		bs = append(bs, b)
	}
	sort.Strings(bs)
	return fmt.Sprintf("%s (broken controllers: %v)%s", s.name, bs, r)
}

type view struct{ op, kind string }

type drawer struct {
	version  int
	listMaps bool
}

func breakIt(c *hx.Case, conf *opv1a1.Controller) string {
	how := gen.Pick(c.T, "broken", "name", "source", "kind", "pipeline", "predicate", "selector", "target")
	switch how {
	case "name":
		conf.Name = ""
	case "source":
		conf.Sources = nil
	case "kind":
		conf.Sources[0].Kind = ""
	case "target":
		conf.Target = opv1a1.Target{}
	case "pipeline":
		p, err := gen.Pipeline([]ref.Stage{{"@select": true}, {"@join": true}})
		if err != nil {
			conf.Sources = nil
			return "source"
		}
		conf.Pipeline = p
	case "predicate":
		if err := gen.Convert("NoSuchPredicate", &conf.Sources[0].Predicate); err != nil {
			conf.Sources = nil
			return "source"
		}
	case "selector":
		conf.Sources[0].LabelSelector = &metav1.LabelSelector{MatchExpressions: []metav1.LabelSelectorRequirement{{Key: "a", Operator: "NoSuch"}}}
	}
	return how
}

// draw draws a specification; the sources are base views and results of other operators.
func (d *drawer) draw(c *hx.Case, name string, others []view) *spec {
	s := &spec{name: name, broken: map[string]bool{}}
	for i, n := 0, gen.Int(c.T, 1, 2, "nctl"); i < n; i++ {
		d.version++
		k := opw.Ctl{Op: name, Name: fmt.Sprintf("ctl%d", i), Target: fmt.Sprintf("T%d", d.version)}
		if gen.Prob(c.T, 4, "samekind") {
			k.Target = fmt.Sprintf("S%d", i)
		}
		avail := append([]view{{"test", "Alpha"}, {"test", "Beta"}}, others...)
		seen := map[string]bool{}
		for j, m := 0, gen.Int(c.T, 1, 2, "nsrc"); j < m; j++ {
			v := avail[gen.Int(c.T, 0, len(avail)-1, "view")]
			if seen[v.kind] {
				continue // inputs of a pipeline are told apart by kind
			}
			seen[v.kind] = true
			k.Src = append(k.Src, opw.Src{Op: v.op, Kind: v.kind})
		}
		kinds := []string{}
		for _, x := range k.Src {
			kinds = append(kinds, x.Kind)
		}
		k.Pipe = gen.DrawPipe(c.T, gen.PipeConf{Kinds: kinds, ListMaps: &d.listMaps})
		s.ctls = append(s.ctls, k)
		s.all = append(s.all, k.Spec(c))
	}
	if gen.Prob(c.T, 4, "broken") {
		d.version++
		k := opw.Ctl{Op: name, Name: fmt.Sprintf("broken%d", d.version), Target: fmt.Sprintf("T%d", d.version), Src: []opw.Src{{Op: "test", Kind: "Alpha"}}}
		conf := k.Spec(c)
		breakIt(c, &conf)
		s.broken[conf.Name] = true
		at := gen.Int(c.T, 0, len(s.all), "at")
		s.all = append(s.all[:at:at], append([]opv1a1.Controller{conf}, s.all[at:]...)...)
	}
	return s
}

// views are the results others can build upon.
func (s *spec) views() []view {
	r := []view{}
	for _, k := range s.ctls {
		if !k.Pipe.Gathered && !k.Pipe.Unwound && !k.Pipe.Collides && k.Target[0] == 'T' {
			r = append(r, view{k.Op, k.Target})
		}
	}
	return r
}

func ready(st opv1a1.ControllerStatus) metav1.ConditionStatus {
	for _, c := range st.Conditions {
		if c.Type == string(opv1a1.ControllerConditionReady) {
			return c.Status
		}
	}
	return "none"
}

// checkStatus checks the status of an operator.
func checkStatus(op *operator.Operator, s *spec) string {
	if op == nil {
		return fmt.Sprintf("operator %s is missing", s.name)
	}
	st := op.GetStatus(5)
	if len(st.Controllers) != len(s.all) {
		return fmt.Sprintf("%d controllers expected in the status of %s: %s", len(s.all), s.name, hx.J(st))
	}
	for i, k := range s.all {
		x := st.Controllers[i]
		if x.Name != k.Name {
			return fmt.Sprintf("controller %d of %s is called %q, expected %q", i, s.name, x.Name, k.Name)
		}
		want := metav1.ConditionTrue
		if s.broken[k.Name] {
			want = metav1.ConditionFalse
		}
		if ready(x) != want || (len(x.LastErrors) > 0) != s.broken[k.Name] {
			return fmt.Sprintf("controller %s of %s (broken: %v) has status %s", k.Name, s.name, s.broken[k.Name], hx.J(x))
		}
	}
	return ""
}

// active checks that a controller works by its specification. Objects left behind by earlier
// versions with the same target do not count.
func active(w *opw.World, k opw.Ctl) string {
	want, got := w.Required(k), w.List(k.Op, k.Target)
	if k.Target[0] == 'S' {
		for key := range got {
			if _, ok := want[key]; !ok {
				delete(got, key)
			}
		}
	}
	if d := opw.Compare(want, got, k.Pipe.Gathered); d != "" {
		return fmt.Sprintf("target %s of controller %s of operator %s: %s", k.Target, k.Name, k.Op, d)
	}
	return ""
}

func settled(w *opw.World, present map[string]*spec) string {
	all := func() string {
		for _, s := range present {
			for _, k := range s.ctls {
				if d := active(w, k); d != "" {
					return d
				}
			}
		}
		return ""
	}
	return hx.Eventually(opw.Limit, func() string {
		if d := all(); d != "" {
			return d
		}
		time.Sleep(2 * time.Millisecond)
		return all()
	})
}

const rule = "histories of 6-20 steps on an operator controller with a shared view store: operators a, b and c are added, updated and removed (before and after it is started, one after another or by one goroutine per operator), " +
	"their 1-2 generated controllers read base views and results of other operators, some specifications contain a broken controller; the base views change in between. " +
	"The present operators must do what their latest specification says, status must name the broken controllers, and the views of removed specifications must stay as they are through six more rounds of changes. " +
	"Non-trivial: at least one update or removal of a running operator, and some target is not empty."

// exposed checks that the API server lists exactly the views of an operator.
func exposed(api *rst.Server, name string, s *spec) string {
	group := viewv1a1.Group(name)
	code, m, err := api.Do(rst.Req{Method: "GET", Path: "/apis/" + group + "/v1alpha1"})
	if err != nil {
		return fmt.Sprintf("discovery of %s: %v", group, err)
	}
	got := map[string]bool{}
	if code == 200 {
		rs, _ := m["resources"].(L)
		for _, r := range rs {
			kind, _ := r.(M)["kind"].(string)
			got[kind] = true
		}
	} else if code >= 500 {
		return fmt.Sprintf("discovery of %s: status %d", group, code)
	}
	if s == nil {
		if code == 200 {
			return fmt.Sprintf("the API server serves views %v of operator %s, which is not present", got, name)
		}
		return ""
	}
	may := map[string]bool{}
	for _, k := range s.all {
		may[k.Target.Kind] = true
		for _, x := range k.Sources {
			may[x.Kind] = true
		}
	}
	for k := range got {
		if !may[k] {
			return fmt.Sprintf("the API server serves view %s, which is not in the present specification of operator %s", k, name)
		}
	}
	for _, k := range s.ctls {
		if !got[k.Target] {
			return fmt.Sprintf("the API server does not serve view %s of operator %s: %v", k.Target, name, got)
		}
		for _, x := range k.Src {
			if x.Op == name && !got[x.Kind] {
				return fmt.Sprintf("the API server does not serve view %s of operator %s: %v", x.Kind, name, got)
			}
			if x.Op != name && got[x.Kind] {
				own := false
				for _, k := range s.all {
					own = own || k.Target.Kind == x.Kind
				}
				if !own {
					return fmt.Sprintf("the API server serves view %s of operator %s as one of operator %s", x.Kind, x.Op, name)
				}
			}
		}
	}
	return ""
}

func TestHistory(t *testing.T) {
	hx.Check(t, rule, hx.Scale(500, 15000), func(c *hx.Case) {
		d := &drawer{listMaps: gen.Bool(c.T, "listmaps")}
		w := opw.New(c)
		defer w.Close()
		model := gen.NewWorld([]string{"Alpha", "Beta"}, d.listMaps)
		h := newHost(c, w)
		defer h.stop()

		// the API server that exposes the views of the operators, if there is one
		var api *rst.Server
		if gen.Prob(c.T, 6, "API server") {
			var err error
			if api, err = rst.Shared(); err != nil {
				c.Fatalf("harness: %v", err)
			}
			h.oc.SetAPIServer(api.S)
			c.Class("with API server")
			defer func() {
				for _, n := range []string{"a", "b", "c.d"} {
					api.S.UnregisterAPIGroup(viewv1a1.Group(n))
				}
			}()
		}

		present := map[string]*spec{}
		dead := map[view]bool{} // results of removed specifications
		started := false
		replaced := 0
		names := []string{"a", "b", "c.d"}
		change := func(n int) {
			xs := opw.History(c, model, nil, n)
			for _, x := range xs {
				c.Step("%s", x)
			}
			if m := w.Play(xs, 1); m != "" {
				c.Failf("%s", m)
			}
		}
		upsert := func(s *spec, add bool) (err error) {
			var op *operator.Operator
			sp := &opv1a1.OperatorSpec{Controllers: s.all}
			if add {
				op, err = h.oc.AddOperatorFromSpec(s.name, sp)
			} else {
				op, err = h.oc.UpsertOperator(s.name, sp)
			}
			if err == nil && (op == nil || op.GetName() != s.name) {
				err = fmt.Errorf("no operator returned")
			}
			return err
		}
		bury := func(name string) {
			if s, ok := present[name]; ok {
				for _, k := range s.ctls {
					dead[view{k.Op, k.Target}] = true
				}
				if started {
					replaced++
				}
			}
			delete(present, name)
		}
		revive := func() {
			for _, s := range present {
				for _, k := range s.ctls {
					delete(dead, view{k.Op, k.Target})
				}
			}
		}
		check := func(what string) {
			if m := h.alive(); m != "" {
				c.Failf("%s", m)
			}
			if !started {
				return
			}
			if m := settled(w, present); m != "" {
				c.Failf("%s: %s\nerrors: %s", what, m, w.Errors())
			}
		}
		statuses := func() {
			for _, n := range names {
				if api != nil {
					if m := exposed(api, n, present[n]); m != "" {
						c.Failf("%s", m)
					}
				}
				op := h.oc.GetOperator(n)
				if s, ok := present[n]; ok {
					if m := checkStatus(op, s); m != "" {
						c.Failf("%s", m)
					}
				} else if op != nil {
					c.Failf("operator %s is present after its removal", n)
				}
			}
		}

		change(gen.Pick(c.T, "npre", 4, 8, 0))
		if gen.Bool(c.T, "early") {
			c.Step("start")
			h.start()
			started = true
		}
		parallel := gen.Prob(c.T, 5, "parallel")
		c.ClassIf(parallel, "concurrent")
		if parallel {
			if !started {
				h.start()
				c.Step("start")
				started = true
			}
			var wg sync.WaitGroup
			errs := make([]error, len(names))
			for i, n := range names {
				type step struct {
					s     *spec
					pause time.Duration
				}
				steps := []step{}
				for j, m := 0, gen.Int(c.T, 1, 5, "nsteps"); j < m; j++ {
					st := step{pause: time.Duration(gen.Pick(c.T, "pause", 0, 0, 1, 5)) * time.Millisecond}
					if j == 0 || gen.Prob(c.T, 10, "up") {
						st.s = d.draw(c, n, nil)
						c.Step("goroutine %d: upsert %s", i, st.s)
						bury(n)
						present[n] = st.s
					} else {
						c.Step("goroutine %d: remove %s", i, n)
						bury(n)
					}
					steps = append(steps, st)
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					for _, st := range steps {
						if st.s != nil {
							if err := upsert(st.s, false); err != nil {
								errs[i] = fmt.Errorf("upsert of %s: %w", st.s.name, err)
								return
							}
						} else {
							h.oc.DeleteOperator(n)
						}
						time.Sleep(st.pause)
					}
				}()
			}
			change(gen.Int(c.T, 1, 6, "n"))
			c.MustReturn("changing the operators", opw.Limit, wg.Wait)
			for _, err := range errs {
				if err != nil {
					c.Failf("%v", err)
				}
			}
			check("after concurrent changes")
		} else {
			for i, n := 0, gen.Pick(c.T, "n", 10, 14, 6, 20); i < n; i++ {
				name := gen.Pick(c.T, "op", names...)
				switch op := gen.Int(c.T, 0, 9, "step"); {
				case op < 4:
					others := []view{}
					for _, o := range names {
						if s, ok := present[o]; ok && o != name && gen.Bool(c.T, "chain") {
							others = append(others, s.views()...)
						}
					}
					s := d.draw(c, name, others)
					_, exists := present[name]
					add := !exists && gen.Bool(c.T, "add")
					c.Step("%d upsert %s", i, s)
					bury(name)
					if err := upsert(s, add); err != nil {
						c.Failf("upsert of %s failed: %v", name, err)
					}
					present[name] = s
				case op < 6:
					c.Step("%d remove %s", i, name)
					h.oc.DeleteOperator(name)
					bury(name)
				case op < 8:
					change(gen.Int(c.T, 1, 4, "nchanges"))
				default:
					check(fmt.Sprintf("before step %d", i))
					statuses()
				}
				if !started && gen.Prob(c.T, 4, "start") {
					c.Step("start")
					h.start()
					started = true
				}
				if p := gen.Pick(c.T, "pause", 0, 0, 0, 1, 5); p > 0 {
					time.Sleep(time.Duration(p) * time.Millisecond)
				}
			}
		}
		if !started {
			c.Step("start")
			h.start()
			started = true
		}
		check("in the end")
		statuses()
		revive()

		// no removed specification works any more
		filled := false
		for _, s := range present {
			for _, k := range s.ctls {
				filled = filled || len(w.List(k.Op, k.Target)) > 0
			}
		}
		if len(dead) > 0 {
			// what is under way may come to an end
			snap := map[view]string{}
			changed := map[view]int{}
			for i, quiet := 0, 0; i < 200 && quiet < 3; i++ {
				quiet++
				for v := range dead {
					if x := ref.Canon(w.List(v.op, v.kind)); x != snap[v] {
						snap[v], quiet = x, 0
					}
				}
				time.Sleep(8 * time.Millisecond)
			}
			for r := 0; r < 6; r++ {
				xs := []opw.Change{}
				for _, kind := range model.Kinds {
					name := fmt.Sprintf("n%d", r%4)
					o := gen.SrcContent(c.T, kind, gen.GVK(kind).Group, "default", name, d.listMaps)
					delete(o["metadata"].(M), "labels")
					xs = append(xs, opw.Change{Obj: o})
					model.Objs[kind]["default/"+name] = ref.CopyMap(o)
				}
				if m := w.Play(xs, 1); m != "" {
					c.Failf("%s", m)
				}
				check(fmt.Sprintf("in round %d", r))
				time.Sleep(3 * time.Millisecond)
				for v := range dead {
					if x := ref.Canon(w.List(v.op, v.kind)); x != snap[v] {
						snap[v] = x
						if changed[v]++; changed[v] >= 3 {
							c.Failf("view %s of operator %s, the target of a removed specification, keeps changing", v.kind, v.op)
						}
					}
				}
			}
		}
		c.NonTrivial(replaced > 0 && filled)
		c.ClassIf(len(dead) > 0, "dead targets checked")
	})
}

const stopRule = "1-3 operators whose controllers report errors all the time (ill-typed sources) are removed or the whole operator controller is stopped while errors are on their way: it must return without an error and never crash. " +
	"Non-trivial: some error was reported before the end."

func TestShutdown(t *testing.T) {
	hx.Check(t, stopRule, hx.Scale(300, 6000), func(c *hx.Case) {
		w := opw.New(c)
		defer w.Close()
		h := newHost(c, w)
		n := gen.Int(c.T, 1, 3, "nops")
		for i := 0; i < n; i++ {
			ctls := []opv1a1.Controller{}
			for j, m := 0, gen.Int(c.T, 1, 4, "nctl"); j < m; j++ {
				k := opw.Ctl{Op: fmt.Sprintf("op%d", i), Name: fmt.Sprintf("ctl%d", j), Target: fmt.Sprintf("T%d", j), Src: []opw.Src{{Op: "test", Kind: "Alpha"}}}
				k.Pipe = gen.Pipe{Stages: []ref.Stage{{"@project": M{"metadata": M{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}, "spec": M{"s": M{"@sum": "$.spec.a"}}}}}}
				ctls = append(ctls, k.Spec(c))
			}
			if _, err := h.oc.AddOperatorFromSpec(fmt.Sprintf("op%d", i), &opv1a1.OperatorSpec{Controllers: ctls}); err != nil {
				c.Failf("%v", err)
			}
		}
		h.start()
		c.Step("%d operators", n)
		for i, m := 0, gen.Int(c.T, 1, 8, "nobjs"); i < m; i++ {
			o := M{"apiVersion": gen.GVK("Alpha").GroupVersion().String(), "kind": "Alpha", "metadata": M{"name": fmt.Sprintf("n%d", i), "namespace": "default"}, "spec": M{"a": "str"}}
			if err := w.Put(o); err != nil {
				c.Failf("%v", err)
			}
			c.Step("put object %d", i)
		}
		if p := gen.Pick(c.T, "pause", 0, 1, 3, 10); p > 0 {
			time.Sleep(time.Duration(p) * time.Millisecond)
			c.Step("wait %d ms", p)
		}
		if gen.Bool(c.T, "wait") {
			c.Step("wait for an error")
			hx.Eventually(opw.Limit, func() string {
				for i := 0; i < n; i++ {
					if op := h.oc.GetOperator(fmt.Sprintf("op%d", i)); op != nil {
						for _, x := range op.GetStatus(1).Controllers {
							if len(x.LastErrors) > 0 {
								return ""
							}
						}
					}
				}
				return "no error yet"
			})
		}
		errs := 0
		for i := 0; i < n; i++ {
			if op := h.oc.GetOperator(fmt.Sprintf("op%d", i)); op != nil {
				for _, x := range op.GetStatus(1).Controllers {
					errs += len(x.LastErrors)
				}
			}
			if gen.Prob(c.T, 4, "remove") {
				c.Step("remove op%d", i)
				h.oc.DeleteOperator(fmt.Sprintf("op%d", i))
			}
		}
		if m := h.alive(); m != "" {
			c.Failf("%s", m)
		}
		h.stop()
		time.Sleep(time.Duration(gen.Pick(c.T, "after", 0, 1, 4)) * time.Millisecond)
		c.NonTrivial(errs > 0)
	})
}
