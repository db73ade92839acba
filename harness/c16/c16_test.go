package c16

import (
	"context"
	"encoding/json"
	"fmt"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/client-go/util/workqueue"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/event"
	crpred "sigs.k8s.io/controller-runtime/pkg/predicate"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/predicate"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

type M = gen.M
type L = gen.L

const (
	create = iota
	update
	del
	generic
)

var evName = []string{"create", "update", "delete", "generic"}

// eval is the reference: what a predicate says about an event.
func eval(p any, ev int, old, cur M) bool {
	switch x := p.(type) {
	case string:
		if ev != update {
			return true
		}
		f := map[string]string{"GenerationChanged": "generation", "ResourceVersionChanged": "resourceVersion",
			"LabelChanged": "labels", "AnnotationChanged": "annotations"}[x]
		return ref.JSON(meta(old)[f]) != ref.JSON(meta(cur)[f])
	case M:
		for op, l := range x {
			args := l.(L)
			switch op {
			case "Not":
				return !eval(args[0], ev, old, cur)
			case "And":
				for _, a := range args {
					if !eval(a, ev, old, cur) {
						return false
					}
				}
				return true
			case "Or":
				for _, a := range args {
					if eval(a, ev, old, cur) {
						return true
					}
				}
				return false
			}
		}
	}
	panic("harness: bad predicate")
}

func meta(o M) M { m, _ := o["metadata"].(M); return m }

func lab(o M) M { m, _ := meta(o)["labels"].(M); return m }

func drawLabels(t gen.T) M {
	m := M{}
	for _, k := range []string{"app", "tier", "env"} {
		if gen.Bool(t, "has"+k) {
			m[k] = gen.Pick(t, "lv", "web", "db", "1", "")
		}
	}
	return m
}

func drawObj(t gen.T, ns, name string) M {
	md := M{"name": name}
	if ns != "" {
		md["namespace"] = ns
	}
	if gen.Bool(t, "gen") {
		md["generation"] = int64(gen.Int(t, 1, 3, "g"))
	}
	if gen.Bool(t, "rv") {
		md["resourceVersion"] = gen.Pick(t, "rvv", "1", "2", "10")
	}
	if l := drawLabels(t); len(l) > 0 {
		md["labels"] = l
	}
	if gen.Bool(t, "anns") {
		md["annotations"] = M{gen.Pick(t, "ak", "a", "b"): gen.Pick(t, "av", "1", "2")}
	}
	return M{"apiVersion": gen.Operator + ".view.dcontroller.io/v1alpha1", "kind": "Src", "metadata": md, "spec": M{"x": gen.Scalar(t)}}
}

// change makes a successor of an object: any subset of the observed parts changes.
func change(t gen.T, o M) M {
	n := ref.CopyMap(o)
	d := drawObj(t, "n", "n")
	for _, f := range []string{"generation", "resourceVersion", "labels", "annotations"} {
		if gen.Prob(t, 5, "chg-"+f) {
			if v, ok := meta(d)[f]; ok {
				meta(n)[f] = v
			} else {
				delete(meta(n), f)
			}
		}
	}
	if gen.Bool(t, "chg-spec") {
		n["spec"] = d["spec"]
	}
	return n
}

func u(o M) client.Object { return &unstructured.Unstructured{Object: ref.CopyMap(o)} }

func run(p crpred.TypedPredicate[client.Object], ev int, old, cur M) bool {
	switch ev {
	case create:
		return p.Create(event.CreateEvent{Object: u(cur)})
	case update:
		return p.Update(event.UpdateEvent{ObjectOld: u(old), ObjectNew: u(cur)})
	case del:
		return p.Delete(event.DeleteEvent{Object: u(cur)})
	}
	return p.Generic(event.GenericEvent{Object: u(cur)})
}

func parse(c *hx.Case, p any) predicate.Predicate {
	var x predicate.Predicate
	if err := json.Unmarshal([]byte(ref.JSON(p)), &x); err != nil {
		c.Failf("predicate rejected: %v", err)
	}
	return x
}

func depth(p any) int {
	d := 0
	if m, ok := p.(M); ok {
		for _, l := range m {
			for _, a := range l.(L) {
				d = max(d, 1+depth(a))
			}
		}
	}
	return d
}

func TestPredicates(t *testing.T) {
	hx.Check(t, "random and/or/not trees of the four basic predicates, decided on random create, update, delete and generic events, directly, after a JSON round trip and on a deep copy, against a reference; non-trivial: the tree has an operator and the events of the case get both verdicts, or an update differs in some but not all observed fields",
		hx.Scale(24000, 800000), func(c *hx.Case) {
			p := gen.Predicate(c.T, 3)
			c.Step("predicate %s", ref.JSON(p))
			x := parse(c, p)
			b, err := json.Marshal(x)
			if err != nil {
				c.Failf("cannot serialize: %v", err)
			}
			var again predicate.Predicate
			if err := json.Unmarshal(b, &again); err != nil {
				c.Failf("serialized predicate %s rejected: %v", b, err)
			}
			forms := []predicate.Predicate{x, again, *x.DeepCopy()}
			fname := []string{"parsed", "serialized and parsed again", "deep copy"}
			old := drawObj(c.T, "n", "n")
			verdicts := map[bool]bool{}
			for i, n := 0, gen.Int(c.T, 1, 4, "events"); i < n; i++ {
				cur := change(c.T, old)
				ev := gen.Pick(c.T, "ev", update, update, update, create, del, generic)
				want := eval(p, ev, old, cur)
				verdicts[want] = true
				c.Step("%s %s -> %s: want %v", evName[ev], ref.JSON(old), ref.JSON(cur), want)
				for j, f := range forms {
					pr, err := predicate.FromPredicate(f)
					if err != nil {
						c.Failf("valid predicate (%s) rejected: %v", fname[j], err)
					}
					if got := run(pr, ev, old, cur); got != want {
						c.Failf("%s predicate says %v on the %s event, want %v", fname[j], got, evName[ev], want)
					}
				}
				n := 0
				for _, f := range []string{"generation", "resourceVersion", "labels", "annotations"} {
					if eval(map[string]string{"generation": "GenerationChanged", "resourceVersion": "ResourceVersionChanged", "labels": "LabelChanged", "annotations": "AnnotationChanged"}[f], update, old, cur) {
						n++
					}
				}
				c.NonTrivial(ev == update && n > 0 && n < 4)
				old = cur
			}
			c.NonTrivial(depth(p) > 0 && len(verdicts) == 2)
			c.ClassIf(depth(p) > 1, "nested predicate")
		})
}

func TestInvalidPredicates(t *testing.T) {
	hx.Check(t, "predicate trees with one node replaced by an invalid one (unknown names, several operators, wrong number of arguments of not, wrong types) are rejected with an error when parsed or converted; non-trivial: the invalid node is not the root",
		hx.Scale(4000, 100000), func(c *hx.Case) {
			var mk func(d int) any
			mk = func(d int) any {
				if d > 0 {
					l := L{mk(d - 1)}
					op := gen.Pick(c.T, "op", "And", "Or", "Not")
					if op != "Not" {
						for i, n := 0, gen.Int(c.T, 0, 2, "sib"); i < n; i++ {
							s := gen.Predicate(c.T, 1)
							if gen.Bool(c.T, "left") {
								l = append(L{s}, l...)
							} else {
								l = append(l, s)
							}
						}
					}
					return M{op: l}
				}
				g := func() any { return gen.Predicate(c.T, 1) }
				switch gen.Int(c.T, 0, 7, "bad") {
				case 0:
					return gen.Pick(c.T, "n", "", "generationChanged", "GenerationChanged ", "Foo", "And")
				case 1:
					return M{}
				case 2:
					return M{"And": L{g()}, "Or": L{g()}}
				case 3:
					return M{"Not": L{}}
				case 4:
					return M{"Not": L{g(), g()}}
				case 5:
					return M{gen.Pick(c.T, "o", "and", "not", "Xor", ""): L{g()}}
				case 6:
					return M{"And": gen.Pick[any](c.T, "arg", "GenerationChanged", M{"Not": L{g()}}, int64(1))}
				}
				return gen.Pick[any](c.T, "val", int64(1), true, L{g()})
			}
			d := gen.Int(c.T, 0, 2, "depth")
			p := mk(d)
			c.Step("predicate %s", ref.JSON(p))
			c.NonTrivial(d > 0)
			c.NoPanic("parsing an invalid predicate", func() {
				var x predicate.Predicate
				if err := json.Unmarshal([]byte(ref.JSON(p)), &x); err != nil {
					return
				}
				if _, err := predicate.FromPredicate(x); err == nil {
					c.Failf("invalid predicate accepted")
				}
			})
		})
}

func toSelector(c *hx.Case, sel any) metav1.LabelSelector {
	var s metav1.LabelSelector
	if err := json.Unmarshal([]byte(ref.JSON(sel)), &s); err != nil {
		c.Failf("harness: %v", err)
	}
	return s
}

func TestSelectors(t *testing.T) {
	hx.Check(t, "random label selectors (matchLabels and matchExpressions), label sets and namespaces: source selector, @selector expression and a reference of the Kubernetes semantics agree on all event types (for updates the new object decides), namespace filters accept exactly the objects of the namespace; non-trivial: the selector has at least two requirements or an expression",
		hx.Scale(16000, 500000), func(c *hx.Case) {
			sel := gen.Selector(c.T).(M)
			s := toSelector(c, sel)
			old, cur := drawObj(c.T, "n", "n"), drawObj(c.T, "n", "n")
			c.Step("selector %s labels %s", ref.JSON(sel), ref.JSON(lab(cur)))
			c.NonTrivial(len(s.MatchLabels)+len(s.MatchExpressions) > 1 || len(s.MatchExpressions) > 0)
			want, err := ref.MatchSelector(sel, lab(cur))
			if err != nil {
				c.Failf("harness: %v", err)
			}
			p, err := predicate.FromLabelSelector(s)
			if err != nil {
				c.Failf("valid selector rejected: %v", err)
			}
			for ev := create; ev <= generic; ev++ {
				if got := run(p, ev, old, cur); got != want {
					c.Failf("selector accepts=%v on %s, want %v", got, evName[ev], want)
				}
			}
			c.ClassIf(want, "match")
			c.ClassIf(!want, "no match")
			ls := lab(cur)
			if ls == nil {
				ls = M{}
			}
			e, err := gen.Expr(M{"@selector": L{sel, "$.metadata.labels"}})
			if err != nil {
				c.Failf("expression rejected: %v", err)
			}
			doc := ref.CopyMap(cur)
			meta(doc)["labels"] = ls
			got, err := e.Evaluate(expression.EvalCtx{Object: doc, Log: hx.Log()})
			if err != nil || got != any(want) {
				c.Failf("@selector gives %v (%v), the source selector %v", got, err, want)
			}
			ns, fns := gen.Pick(c.T, "ns", "", "a", "b", "ab"), gen.Pick(c.T, "filter", "a", "b", "ab")
			o := drawObj(c.T, ns, "x")
			for ev := create; ev <= generic; ev++ {
				if got := run(predicate.FromNamespace(fns), ev, o, o); got != (ns == fns) {
					c.Failf("namespace filter %q accepts=%v an object of namespace %q on %s", fns, got, ns, evName[ev])
				}
			}
			// an invalid selector must be refused
			bad := gen.Pick[any](c.T, "badsel",
				M{"matchExpressions": L{M{"key": "app", "operator": "Is", "values": L{"a"}}}},
				M{"matchExpressions": L{M{"key": "app", "operator": "In"}}},
				M{"matchExpressions": L{M{"key": "app", "operator": "Exists", "values": L{"a"}}}},
				M{"matchExpressions": L{M{"key": "", "operator": "Exists"}}},
				M{"matchLabels": M{"app": "not a valid value!"}})
			if _, err := predicate.FromLabelSelector(toSelector(c, bad)); err == nil {
				c.Failf("invalid selector %s accepted", ref.JSON(bad))
			}
		})
}

func TestSourceFilter(t *testing.T) {
	hx.Check(t, "a watcher source with random predicate, label selector and namespace on a view, started on a store with initial objects, and a history of additions, updates and deletions: the requests queued are exactly the events that pass all filters, in order, with the event's object (an update that leaves the selection may be delivered as a deletion); non-trivial: some events pass and some do not",
		hx.Scale(2400, 60000), func(c *hx.Case) {
			mgr, err := manager.NewFakeManager(manager.Options{Logger: hx.Log()})
			if err != nil {
				c.Failf("harness: %v", err)
			}
			vc := mgr.GetCompositeCache().GetViewCache()
			spec := M{"kind": "Src"}
			var pred any
			var sel M
			ns := ""
			if gen.Bool(c.T, "pred") {
				pred = gen.Predicate(c.T, 2)
				spec["predicate"] = pred
			}
			if gen.Bool(c.T, "sel") {
				sel = gen.Selector(c.T).(M)
				spec["labelSelector"] = sel
			}
			if gen.Bool(c.T, "ns") {
				ns = gen.Pick(c.T, "nsv", "a", "b")
				spec["namespace"] = ns
			}
			c.Step("source %s", ref.JSON(spec))
			var s opv1a1.Source
			if err := json.Unmarshal([]byte(ref.JSON(spec)), &s); err != nil {
				c.Failf("source rejected: %v", err)
			}
			in := func(o M) bool {
				if ns != "" && meta(o)["namespace"] != ns {
					return false
				}
				if sel != nil {
					ok, err := ref.MatchSelector(sel, lab(o))
					if err != nil {
						c.Failf("harness: %v", err)
					}
					return ok
				}
				return true
			}
			pass := func(ev int, old, cur M) bool { return pred == nil || eval(pred, ev, old, cur) }

			ctx, cancel := context.WithCancel(context.Background())
			defer cancel()
			q := workqueue.NewTypedRateLimitingQueue(workqueue.DefaultTypedControllerRateLimiter[reconciler.Request]())
			defer q.ShutDown()
			world := map[string]M{}
			keys := []string{"a/x", "a/y", "b/x", "b/z", "a/y2"}
			obj := func(o M) object.Object { return object.DeepCopy(gen.Obj(ref.CopyMap(o))) }
			passed, dropped := 0, 0
			drain := func() []reconciler.Request {
				r := []reconciler.Request{}
				for q.Len() > 0 {
					x, _ := q.Get()
					q.Done(x)
					r = append(r, x)
				}
				return r
			}
			same := func(o object.Object, w M) bool {
				if o == nil {
					return false
				}
				g := ref.CopyMap(o.UnstructuredContent())
				delete(meta(g), "uid")
				return ref.JSON(g) == ref.JSON(w)
			}
			// initial content
			for _, k := range keys {
				if gen.Prob(c.T, 6, "init") {
					o := drawObj(c.T, k[:1], k[2:])
					world[k] = o
					if err := vc.Add(obj(o)); err != nil {
						c.Failf("add: %v", err)
					}
					c.Step("initially %s", ref.JSON(o))
				}
			}
			src, err := reconciler.NewSource(mgr, gen.Operator, s).GetSource()
			if err != nil {
				c.Failf("source rejected: %v", err)
			}
			if err := src.Start(ctx, q); err != nil {
				c.Failf("start: %v", err)
			}
			if ss, ok := src.(interface{ WaitForSync(context.Context) error }); ok {
				wctx, wc := context.WithTimeout(ctx, 60*time.Second)
				err := ss.WaitForSync(wctx)
				wc()
				if err != nil {
					c.Failf("source does not sync: %v", err)
				}
			}
			want := map[string]M{}
			for k, o := range world {
				if in(o) && pass(create, nil, o) {
					want[k] = o
					passed++
				} else {
					dropped++
				}
			}
			got := drain()
			for _, r := range got {
				k := r.Namespace + "/" + r.Name
				if w, ok := want[k]; !ok || r.EventType != object.Added || !same(r.Object, w) {
					c.Failf("unexpected request for an initial object: %s %s %s", r.EventType, k, dump(r.Object))
				}
				delete(want, k)
			}
			if len(want) > 0 {
				c.Failf("no request for the initial objects %s", hx.J(want))
			}
			for i, n := 0, gen.Int(c.T, 1, 10, "events"); i < n; i++ {
				k := gen.Pick(c.T, "key", keys...)
				old, exists := world[k]
				var ev int
				var cur M
				switch {
				case !exists:
					ev, cur = create, drawObj(c.T, k[:1], k[2:])
					world[k] = cur
					err = vc.Add(obj(cur))
				case gen.Prob(c.T, 4, "del"):
					ev, cur = del, old
					delete(world, k)
					err = vc.Delete(obj(cur))
				default:
					ev, cur = update, change(c.T, old)
					if ref.JSON(cur) == ref.JSON(old) {
						continue
					}
					world[k] = cur
					err = vc.Update(obj(old), obj(cur))
				}
				if err != nil {
					c.Failf("%s: %v", evName[ev], err)
				}
				c.Step("%s %s", evName[ev], ref.JSON(cur))
				got := drain()
				ok := pass(ev, old, cur)
				switch {
				case ev == update && ok && in(old) && !in(cur):
					c.Class("update leaves the selection")
					dropped++
					if len(got) == 0 || len(got) == 1 && got[0].EventType == object.Deleted && got[0].Namespace+"/"+got[0].Name == k {
						continue
					}
					c.Failf("update that leaves the selection queues %d requests, first %s %s", len(got), got[0].EventType, dump(got[0].Object))
				case ok && in(cur):
					passed++
					if len(got) != 1 {
						c.Failf("%s passes the filters but %d requests were queued", evName[ev], len(got))
					}
					r := got[0]
					okType := r.EventType == map[int]object.DeltaType{create: object.Added, update: object.Updated, del: object.Deleted}[ev] ||
						ev == update && !in(old) && r.EventType == object.Added
					if !okType || r.Namespace+"/"+r.Name != k || r.GVK.Kind != "Src" || !same(r.Object, cur) {
						c.Failf("%s queues request %s %s/%s %s with object %s", evName[ev], r.EventType, r.Namespace, r.Name, r.GVK, dump(r.Object))
					}
				default:
					dropped++
					if len(got) != 0 {
						c.Failf("%s does not pass the filters but %d requests were queued, first %s %s", evName[ev], len(got), got[0].EventType, dump(got[0].Object))
					}
				}
			}
			c.NonTrivial(passed > 0 && dropped > 0)
			c.ClassIf(pred != nil && sel != nil && ns != "", "predicate, selector and namespace")
		})
}

func dump(o object.Object) string {
	if o == nil {
		return "<nil>"
	}
	return fmt.Sprint(ref.JSON(o.UnstructuredContent()))
}
