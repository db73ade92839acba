package c18

import (
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/opw"
	"dcverif/ref"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/controller"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
)

type M = gen.M
type L = gen.L

// faults is a switchable fault of the writes.
type faults struct {
	mu    sync.Mutex
	what  string
	fails func(kind, key, verb string, n int) bool
	err   error
	n     int
	pause opw.Fault
	hits  map[string]int // kind -> failed writes
}

func (f *faults) write(kind, key, verb string) error {
	if f.pause != nil {
		if err := f.pause(kind, key, verb); err != nil {
			return err
		}
	}
	f.mu.Lock()
	defer f.mu.Unlock()
	f.n++
	if f.fails != nil && f.fails(kind, key, verb, f.n) {
		f.hits[kind]++
		return f.err
	}
	return nil
}

func (f *faults) set(what string, fails func(kind, key, verb string, n int) bool, err error) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.what, f.fails, f.err, f.n = what, fails, err, 0
}

func (f *faults) failed(kind string) int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.hits[kind]
}

func pick(key string, mod int) bool {
	h := 0
	for _, r := range key {
		h = h*31 + int(r)
	}
	return ((h%mod)+mod)%mod == 0
}

// drawFault switches a fault on; it tells which keys certainly work.
func drawFault(c *hx.Case, f *faults) (string, func(kind, key string) bool) {
	gr := schema.GroupResource{Resource: "things"}
	err := []error{opw.ErrFault, apierrors.NewInternalError(opw.ErrFault), apierrors.NewServiceUnavailable("injected fault"),
		apierrors.NewConflict(gr, "x", opw.ErrFault), apierrors.NewForbidden(gr, "x", opw.ErrFault)}[gen.Int(c.T, 0, 4, "err")]
	switch gen.Int(c.T, 0, 3, "fault") {
	case 0:
		f.set("all", func(_, _, _ string, _ int) bool { return true }, err)
		return fmt.Sprintf("all writes fail with %v", err), func(_, _ string) bool { return false }
	case 1:
		mod := gen.Int(c.T, 2, 3, "mod")
		f.set("some", func(_, key, _ string, _ int) bool { return pick(key, mod) }, err)
		return fmt.Sprintf("writes to one key in %d fail with %v", mod, err), func(_, key string) bool { return !pick(key, mod) }
	case 2:
		mod := gen.Int(c.T, 2, 3, "mod")
		f.set("nth", func(_, _, _ string, n int) bool { return n%mod != 0 }, err)
		return fmt.Sprintf("all but every %dth write fail with %v", mod, err), func(_, _ string) bool { return false }
	default:
		verb := gen.Pick(c.T, "verb", "delete", "modify")
		f.set("verb", func(_, _, v string, _ int) bool { return v == verb }, err)
		return fmt.Sprintf("all %s operations fail with %v", verb, err), func(_, _ string) bool { return false }
	}
}

const rule = "1-3 controllers over shared views as in C17, whose writes to the targets fail for some phases (all writes, the writes to some objects, all but every n-th, " +
	"deletions only) while 5-30 changes of the base views go on. While the fault lasts, objects whose writes work must become right, and a controller " +
	"whose writes fail must report it. Once the fault is gone every target must become right by retries alone. Non-trivial: at least 3 writes were failed."

func TestWriteFaults(t *testing.T) {
	hx.Check(t, rule, hx.Scale(900, 30000), func(c *hx.Case) {
		ks, labelled, lm := opw.Draw(c)
		for i := range ks {
			ks[i].Op = "test"
			for j := range ks[i].Src {
				ks[i].Src[j].Op = "test"
			}
		}
		w := opw.New(c)
		defer w.Close()
		model := gen.NewWorld([]string{"Alpha", "Beta", "Gamma"}, lm)
		f := &faults{hits: map[string]int{}}
		if gen.Bool(c.T, "slow") {
			f.pause = opw.Pauses(int64(gen.Int(c.T, 0, 1<<30, "seed")), time.Millisecond)
		}
		s := w.NewSlow("test", f.write, ks...)
		w.Ops["test"] = s
		s.Start()
		phases := gen.Pick(c.T, "phases", 2, 3, 4)
		total := 0
		for p := 0; p < phases; p++ {
			faulty := gen.Prob(c.T, 11, "faulty") && p < phases-1 || p == phases-2
			works := func(_, _ string) bool { return true }
			if faulty {
				var desc string
				desc, works = drawFault(c, f)
				c.Step("phase %d: %s", p, desc)
				c.Class("fault: " + f.what)
			} else {
				f.set("", nil, nil)
				c.Step("phase %d: no fault", p)
			}
			xs := opw.History(c, model, labelled, gen.Pick(c.T, "n", 6, 10, 3, 14, 1))
			if p == phases-1 && gen.Prob(c.T, 8, "nochange") {
				xs = nil
			}
			writers := gen.Int(c.T, 1, 2, "writers")
			for _, x := range xs {
				c.Step("phase %d with %d writers: %s", p, writers, x)
			}
			if m := w.Play(xs, writers); m != "" {
				c.Failf("%s", m)
			}
			if !faulty {
				if m := w.Converged(ks, 3*time.Millisecond); m != "" {
					c.Failf("no convergence without faults after phase %d: %s\nerrors: %s", p, m, w.Errors())
				}
				continue
			}
			// the objects whose writes work
			if f.what == "some" {
				c.Class("others checked")
				bad := hx.Eventually(opw.Limit, func() string {
					for _, k := range ks {
						want, got := w.Required(k), w.List("test", k.Target)
						for key := range want {
							if !works(k.Target, key) {
								delete(want, key)
							}
						}
						for key := range got {
							if !works(k.Target, key) {
								delete(got, key)
							}
						}
						if d := opw.Compare(want, got, k.Pipe.Gathered); d != "" {
							return fmt.Sprintf("target of %s: %s", k.Name, d)
						}
					}
					return ""
				})
				if bad != "" {
					c.Failf("an object is not processed although only writes to others fail: %s\nerrors: %s", bad, w.Errors())
				}
			} else {
				time.Sleep(time.Duration(gen.Pick(c.T, "last", 2, 10, 30)) * time.Millisecond)
			}
			for i, k := range ks {
				if f.failed(k.Target) == 0 {
					continue
				}
				total += f.failed(k.Target)
				bad := hx.Eventually(opw.Limit, func() string { return reported(s.Ctls[i], "injected fault") })
				if bad != "" {
					c.Failf("writes of %s failed: %s", k.Name, bad)
				}
			}
			if p == phases-2 {
				f.set("", nil, nil)
			}
		}
		// controllers without a failed write have nothing to report
		for i, k := range ks {
			if f.failed(k.Target) > 0 {
				continue
			}
			st := s.Ctls[i].GetStatus(7)
			if len(st.LastErrors) > 0 || ready(st) != metav1.ConditionTrue {
				c.Failf("controller %s had no failure but its status is %s", k.Name, hx.J(st))
			}
		}
		if total > 0 && w.Errors() == "" {
			c.Failf("no error was sent to the error channel")
		}
		c.NonTrivial(total >= 3)
	})
}

func ready(st opv1a1.ControllerStatus) metav1.ConditionStatus {
	for _, c := range st.Conditions {
		if c.Type == string(opv1a1.ControllerConditionReady) {
			return c.Status
		}
	}
	return "none"
}

// reported tells whether the status shows an error.
func reported(k controller.Controller, text string) string {
	st := k.GetStatus(7)
	if len(st.LastErrors) == 0 {
		return "no error in the status"
	}
	if len(st.LastErrors) > 10 {
		return fmt.Sprintf("status has %d errors", len(st.LastErrors))
	}
	for _, e := range st.LastErrors {
		if !strings.Contains(e, text) && len(e) < 200 {
			return fmt.Sprintf("status has error %q", e)
		}
	}
	if ready(st) == metav1.ConditionTrue || ready(st) == "none" {
		return "the controller claims to be ready: " + hx.J(st)
	}
	return ""
}

const evalRule = "1-2 controllers with generated pipelines over base views; some objects are ill-typed for a while (a map, list or number where a string or list is needed), so that " +
	"evaluation fails on them, and are later corrected, deleted or replaced. For pipelines over one source the results of well-typed objects must be there in the meantime; in the end every target must be right. " +
	"Non-trivial: some evaluation error was reported."

// poison makes an object ill-typed.
func poison(c *hx.Case, m M) M {
	m = ref.CopyMap(m)
	spec := m["spec"].(M)
	switch gen.Int(c.T, 0, 5, "poison") {
	case 0:
		spec["a"] = M{"bad": true}
	case 1:
		spec["a"] = "str"
	case 2:
		spec["l"] = "str"
	case 3:
		spec["b"] = L{M{"bad": true}}
	case 4:
		delete(spec, "m")
		spec["a"] = true
	default:
		spec["l"] = M{"bad": true}
		spec["opt"] = L{int64(1)}
	}
	return m
}

// isSick tells whether an object is ill-typed.
func isSick(m M) bool {
	spec, _ := m["spec"].(M)
	mm, ok := spec["m"].(M)
	if !ok {
		return true
	}
	for _, v := range []any{spec["a"], mm["x"]} {
		if _, ok := v.(int64); !ok {
			return true
		}
	}
	if _, ok := spec["b"].(string); !ok {
		return true
	}
	if v, ok := spec["opt"]; ok {
		if _, ok := v.(int64); !ok {
			return true
		}
	}
	if v, ok := spec["l"]; ok {
		if _, ok := v.(L); !ok {
			return true
		}
	}
	return false
}

func TestEvaluationFaults(t *testing.T) {
	hx.Check(t, evalRule, hx.Scale(900, 30000), func(c *hx.Case) {
		lm := gen.Bool(c.T, "listmaps")
		n := gen.Int(c.T, 1, 2, "nctl")
		ks := []opw.Ctl{}
		for i := 0; i < n; i++ {
			k := opw.Ctl{Op: "test", Name: fmt.Sprintf("ctl%d", i), Target: fmt.Sprintf("T%d", i)}
			kinds := []string{"Alpha", "Beta"}[:gen.Int(c.T, 1, 2, "nsrc")]
			for _, kind := range kinds {
				k.Src = append(k.Src, opw.Src{Op: "test", Kind: kind})
			}
			k.Pipe = gen.DrawPipe(c.T, gen.PipeConf{Kinds: kinds, ListMaps: &lm})
			ks = append(ks, k)
			c.Step("%s", k)
		}
		w := opw.New(c)
		defer w.Close()
		model := gen.NewWorld([]string{"Alpha", "Beta"}, lm)
		f := opw.Fault(func(_, _, _ string) error { return nil })
		if gen.Prob(c.T, 4, "slow") {
			f = opw.Pauses(int64(gen.Int(c.T, 0, 1<<30, "seed")), time.Millisecond)
		}
		s := w.NewSlow("test", f, ks...)
		w.Ops["test"] = s
		s.Start()

		put := func(x opw.Change) {
			var err error
			if x.Del {
				err = w.Del(x.Obj)
			} else {
				err = w.Put(x.Obj)
			}
			if err != nil {
				c.Failf("%s: %v", x, err)
			}
			if x.Pause > 0 {
				time.Sleep(x.Pause)
			}
		}
		sick := map[string]bool{} // kind|key
		for i, m := 0, gen.Pick(c.T, "n", 10, 16, 6, 24); i < m; i++ {
			xs := opw.History(c, model, nil, 1)
			x := xs[0]
			meta := x.Obj["metadata"].(M)
			kind := x.Obj["kind"].(string)
			key := fmt.Sprintf("%v/%v", meta["namespace"], meta["name"])
			if !x.Del && gen.Prob(c.T, 5, "sick") {
				// the model keeps the sick content: the views hold it
				x.Obj = poison(c, x.Obj)
				model.Objs[kind][key] = ref.CopyMap(x.Obj)
			}
			// changes may keep a part of the content
			delete(sick, kind+"|"+key)
			if !x.Del && isSick(x.Obj) {
				sick[kind+"|"+key] = true
			}
			c.Step("%s", x)
			put(x)
		}
		// in the meantime
		for _, k := range ks {
			if len(k.Src) > 1 || k.Pipe.Joined || k.Pipe.Gathered {
				continue
			}
			k := k
			want := gen.Want{}
			bad := map[string]bool{}
			view := model.Objs["Alpha"]
			for key, m := range view {
				bag, err := ref.RunPipeline(k.Pipe.Stages, []ref.Source{{Kind: "Alpha", Docs: []map[string]any{ref.CopyMap(m)}}})
				if err != nil || sick["Alpha|"+key] {
					bad[key] = true
					continue
				}
				for kk, v := range gen.Expect(bag, gen.GVK(k.Target)) {
					want[kk] = append(want[kk], v...)
				}
			}
			c.ClassIf(len(bad) > 0 && len(want) > 0, "results of others checked")
			if m := hx.Eventually(opw.Limit, func() string {
				got := w.List("test", k.Target)
				for key := range got {
					if _, ok := want[key]; !ok && len(bad) > 0 {
						delete(got, key) // may belong to an earlier content of a sick object
					}
				}
				return opw.Compare(want, got, false)
			}); m != "" {
				c.Failf("results of well-typed objects are missing in %s: %s\nerrors: %s", k.Target, m, w.Errors())
			}
		}
		nerr := 0
		for _, x := range s.Ctls {
			nerr += len(x.GetStatus(1).LastErrors)
		}
		// correct or delete the sick objects
		ids := []string{}
		for id := range sick {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			kind, key, _ := strings.Cut(id, "|")
			ns, name, _ := strings.Cut(key, "/")
			how := gen.Pick(c.T, "cure", "update", "delete", "recreate")
			m := model.Objs[kind][key]
			if how != "update" {
				x := opw.Change{Del: true, Obj: ref.CopyMap(m)}
				c.Step("%s", x)
				put(x)
				delete(model.Objs[kind], key)
			}
			if how != "delete" {
				o := gen.SrcContent(c.T, kind, gen.GVK(kind).Group, ns, name, lm)
				if lab, ok := o["metadata"].(M)["labels"].(M); ok && len(lab) == 0 {
					delete(o["metadata"].(M), "labels")
				}
				x := opw.Change{Obj: o}
				c.Step("%s", x)
				put(x)
				model.Objs[kind][key] = ref.CopyMap(o)
			}
		}
		if gen.Bool(c.T, "more") {
			time.Sleep(time.Duration(gen.Pick(c.T, "wait", 1, 10, 40)) * time.Millisecond)
			for _, x := range opw.History(c, model, nil, gen.Int(c.T, 1, 6, "nmore")) {
				c.Step("%s", x)
				put(x)
			}
		}
		if m := w.Converged(ks, time.Duration(gen.Pick(c.T, "stay", 3, 3, 40))*time.Millisecond); m != "" {
			c.Failf("no convergence after all objects are well-typed: %s\nerrors: %s", m, w.Errors())
		}
		for i, x := range s.Ctls {
			st := x.GetStatus(3)
			if len(st.LastErrors) > 10 {
				c.Failf("status of %s has %d errors", ks[i].Name, len(st.LastErrors))
			}
			if (len(st.LastErrors) == 0) != (ready(st) == metav1.ConditionTrue) {
				c.Failf("status of %s: %s", ks[i].Name, hx.J(st))
			}
		}
		c.NonTrivial(nerr > 0)
		c.ClassIf(len(ids) > 0, "cured at the end")
	})
}

const statusRule = "sequences of up to 40 reports (errors, critical errors, removals of the last error) with messages of 1 to 700 characters on a controller, compared with a list of at most ten errors " +
	"and the condition rules; then reports from several goroutines. Non-trivial: more than ten errors or a critical one."

func TestStatus(t *testing.T) {
	m, err := manager.NewHeadless(manager.Options{Logger: hx.Log()})
	if err != nil {
		t.Fatal(err)
	}
	hx.Check(t, statusRule, hx.Scale(3000, 100000), func(c *hx.Case) {
		k := opw.Ctl{Op: "test", Name: "ctl", Target: "T", Src: []opw.Src{{Op: "test", Kind: "Alpha"}}}
		k.Pipe = gen.Pipe{Kinds: []string{"Alpha"}}
		conf := k.Spec(c)
		ch := make(chan error, 100)
		broken := gen.Pick(c.T, "broken", "", "", "", "", "name", "source", "target", "kind", "pipeline", "predicate", "selector", "targetkind")
		switch broken {
		case "name":
			conf.Name = ""
		case "source":
			conf.Sources = nil
		case "target":
			conf.Target = opv1a1.Target{}
		case "kind":
			conf.Sources[0].Kind = ""
		case "targetkind":
			conf.Target.Kind = ""
			conf.Target.Type = "Patcher"
		case "pipeline":
			// a join is only possible as the first stage
			p, err := gen.Pipeline([]ref.Stage{{"@select": true}, {"@join": true}})
			if err != nil {
				broken = ""
			} else {
				conf.Pipeline = p
			}
		case "predicate":
			if err := gen.Convert("NoSuchPredicate", &conf.Sources[0].Predicate); err != nil {
				broken = ""
			}
		case "selector":
			conf.Sources[0].LabelSelector = &metav1.LabelSelector{MatchExpressions: []metav1.LabelSelectorRequirement{{Key: "a", Operator: "NoSuch"}}}
		}
		c.Step("configuration broken: %q", broken)
		x, err := controller.NewDeclarative(m, "test", conf, controller.Options{ErrorChan: ch})
		if (err != nil) != (broken != "") {
			c.Failf("creating the controller: %v", err)
		}
		d, ok := x.(*controller.DeclarativeController)
		if !ok {
			c.Failf("no controller")
		}
		model := []string{}
		critical := false
		check := func() {
			gen := int64(len(model) + 3)
			st := d.GetStatus(gen)
			if len(st.LastErrors) != len(model) {
				c.Failf("%d errors expected, status: %s", len(model), hx.J(st))
			}
			for i, e := range st.LastErrors {
				if !same(model[i], e) {
					c.Failf("error %d: want %q, got %q", i, model[i], e)
				}
			}
			want := metav1.ConditionTrue
			if critical {
				want = metav1.ConditionFalse
			} else if len(model) > 0 {
				want = metav1.ConditionUnknown
			}
			if got := ready(st); got != want && len(model) > 0 || len(model) == 0 && !critical && got != metav1.ConditionTrue {
				c.Failf("condition must be %s with %d errors: %s", want, len(model), hx.J(st))
			}
			if len(st.Conditions) != 1 || st.Conditions[0].ObservedGeneration != gen {
				c.Failf("conditions: %s", hx.J(st))
			}
			if st.Name != conf.Name {
				c.Failf("name in status: %s", hx.J(st))
			}
		}
		if broken != "" {
			critical = true
			select {
			case e := <-ch:
				model = append(model, e.Error())
				if e.Error() != err.Error() {
					c.Failf("error on the channel: %v, returned: %v", e, err)
				}
			default:
				c.Failf("the failed setup was not reported: %v", err)
			}
		}
		check()
		pushes := len(model)
		for i, n := 0, gen.Pick(c.T, "n", 5, 12, 25, 40, 1); i < n; i++ {
			msg := fmt.Sprintf("%d:", i) + strings.Repeat("x", gen.Pick(c.T, "len", 3, 100, 230, 238, 239, 240, 241, 242, 243, 244, 245, 246, 247, 248, 249, 250, 300, 700)) + fmt.Sprintf(":%d", i)
			if len(model) > 0 && gen.Prob(c.T, 4, "repeat") {
				msg = model[gen.Int(c.T, 0, len(model)-1, "earlier")]
			}
			op := gen.Int(c.T, 0, 7, "op")
			var got error
			switch op {
			case 0, 1, 2, 3:
				c.Step("push %d characters", len(msg))
				got = d.Push(errors.New(msg))
			case 4:
				c.Step("pusherrorf %d characters", len(msg))
				got = d.PushErrorf("%s%w", "", errors.New(msg))
			case 5:
				c.Step("pop")
				d.Pop()
				if len(model) > 0 {
					model = model[:len(model)-1]
				}
				if !critical {
					check()
				}
				continue
			case 6:
				if gen.Prob(c.T, 4, "crit") {
					c.Step("critical %d characters", len(msg))
					got = d.PushCritical(errors.New(msg))
					critical = true
					break
				}
				fallthrough
			default:
				c.Step("pusherror %d characters", len(msg))
				got = d.PushError(msg)
			}
			if got == nil || got.Error() != msg {
				c.Failf("push returned %v", got)
			}
			pushes++
			model = append(model, msg)
			if len(model) > 10 {
				model = model[1:]
			}
			check()
			if pushes <= 3 {
				select {
				case e := <-ch:
					if e.Error() != msg {
						c.Failf("error on the channel: %v", e)
					}
				default:
					c.Failf("report %d was not sent to the channel", pushes)
				}
			}
		}
		c.NonTrivial(pushes > 10 || critical)
		c.ClassIf(broken != "", "setup failed: "+broken)
		c.ClassIf(pushes > 10, "more than ten")

		// concurrent reports
		if gen.Prob(c.T, 6, "conc") {
			c.Class("concurrent")
			ng, each := gen.Int(c.T, 2, 6, "ng"), gen.Int(c.T, 3, 10, "each")
			var wg sync.WaitGroup
			var over atomic.Int64
			for g := 0; g < ng; g++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for i := 0; i < each; i++ {
						_ = d.Push(fmt.Errorf("g%d-%d", g, i))
						if n := len(d.GetStatus(1).LastErrors); n > 10 {
							over.Store(int64(n))
						}
					}
				}()
			}
			c.MustReturn("concurrent reports", 20*time.Second, wg.Wait)
			if over.Load() > 0 {
				c.Failf("%d errors in the status", over.Load())
			}
			st := d.GetStatus(1)
			want := len(model) + ng*each
			if want > 10 {
				want = 10
			}
			if len(st.LastErrors) != want {
				c.Failf("%d errors after concurrent reports, want %d", len(st.LastErrors), want)
			}
			last := map[string]int{}
			for _, e := range st.LastErrors {
				var g, i int
				if n, _ := fmt.Sscanf(e, "g%d-%d", &g, &i); n == 2 {
					key := fmt.Sprint(g)
					if p, ok := last[key]; ok && i <= p {
						c.Failf("errors out of order: %v", st.LastErrors)
					}
					last[key] = i
				}
			}
		}
	})
}

// same compares an error with its shown form: long ones keep their beginning and end.
func same(full, shown string) bool {
	if shown == full {
		return true
	}
	pre, post, ok := strings.Cut(shown, "[...]")
	return ok && len(full) > 200 && len(shown) <= len(full) && len(pre) > 80 && len(post) > 80 &&
		strings.HasPrefix(full, pre) && strings.HasSuffix(full, post)
}

var _ = object.Added
