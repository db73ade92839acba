package c08

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"strings"
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/prun"
	"dcverif/ref"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
	"github.com/l7mp/dcontroller/pkg/predicate"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime"
	"sigs.k8s.io/controller-runtime/pkg/event"
	"sigs.k8s.io/yaml"
)

func canon(v any) string {
	switch x := v.(type) {
	case float64:
		if math.IsNaN(x) || math.IsInf(x, 0) {
			return fmt.Sprintf("%v", x)
		}
	case []any:
		s := "["
		for _, y := range x {
			s += canon(y) + ","
		}
		return s + "]"
	case map[string]any:
		if !finite(x) {
			return fmt.Sprintf("%v", x)
		}
	}
	return ref.JSON(v)
}

func finite(v any) bool {
	switch x := v.(type) {
	case float64:
		return !math.IsNaN(x) && !math.IsInf(x, 0)
	case []any:
		for _, y := range x {
			if !finite(y) {
				return false
			}
		}
	case map[string]any:
		for _, y := range x {
			if !finite(y) {
				return false
			}
		}
	}
	return true
}

// outcome is the result of an evaluation as a string.
func outcome(c *hx.Case, e *expression.Expression, doc gen.M) string {
	var v any
	var err error
	c.NoPanic("Evaluate", func() { v, err = e.Evaluate(expression.EvalCtx{Object: ref.CopyMap(doc)}) })
	if err != nil {
		return "error"
	}
	return canon(v)
}

// smash overwrites an expression tree in place.
func smash(e *expression.Expression) {
	if e == nil {
		return
	}
	smash(e.Arg)
	switch l := e.Literal.(type) {
	case []expression.Expression:
		for i := range l {
			smash(&l[i])
		}
	case map[string]expression.Expression:
		for k, v := range l {
			smash(&v)
			l[k] = v
		}
		l["smashed"] = expression.Expression{Op: "@int", Literal: int64(1)}
	}
	e.Op, e.Literal, e.Arg = "@string", "smashed", nil
}

func exprRoundTrip(c *hx.Case, e any) {
	c.Step("expression %s", ref.JSON(e))
	x, err := gen.Expr(e)
	if err != nil {
		c.Failf("rejected: %v", err)
	}
	docs := []gen.M{gen.ExprDoc(c.T), gen.ExprDoc(c.T)}
	want := []string{}
	for _, d := range docs {
		want = append(want, outcome(c, &x, d))
	}
	compare := func(what string, y *expression.Expression) {
		for i, d := range docs {
			if got := outcome(c, y, d); got != want[i] {
				c.Failf("%s evaluates to %s, the original to %s on %s", what, got, want[i], ref.JSON(d))
			}
		}
	}
	js, err := json.Marshal(&x)
	if err != nil {
		c.Failf("cannot be serialized: %v", err)
	}
	c.Step("serialized %s", js)
	var y, z expression.Expression
	if err := json.Unmarshal(js, &y); err != nil {
		c.Failf("the serialized form is rejected: %v", err)
	}
	compare("the reparsed expression", &y)
	if js2, err := json.Marshal(&y); err != nil || string(js2) != string(js) {
		c.Failf("serialized again: %s %v", js2, err)
	}
	if s := x.String(); s != string(js) {
		c.Failf("String gives %s", s)
	}
	x.DeepCopyInto(&z)
	compare("the deep copy", &z)
	smash(&z)
	compare("the original after its copy was overwritten", &x)
	nontrivial := false
	for _, w := range want {
		nontrivial = nontrivial || w != "error"
	}
	c.NonTrivial(nontrivial && len(js) > 12)
	c.ClassIf(nontrivial, "value")
}

// TestExpressionRoundTrip: serialization and deep copy keep the meaning of expressions.
func TestExpressionRoundTrip(t *testing.T) {
	hx.Check(t, "typed and untyped expressions serialized, reparsed, deep-copied; all evaluate identically; non-trivial: it evaluates to a value on some document and is longer than 12 bytes",
		hx.Scale(40000, 1000000), func(c *hx.Case) {
			var e any
			if gen.Bool(c.T, "typed") {
				e = gen.Scope{Bombs: true}.Any(c.T, gen.Int(c.T, 1, 4, "d"))
			} else {
				e = gen.Scope{}.Untyped(c.T, gen.Int(c.T, 1, 3, "d"))
			}
			if gen.Prob(c.T, 3, "wrap") {
				e = gen.M{gen.Pick(c.T, "w", "@list", "@dict"): e}
			}
			exprRoundTrip(c, e)
		})
}

// TestConstructed: expressions built by the constructors survive too.
func TestConstructed(t *testing.T) {
	hx.Check(t, "literal, getter and setter expressions made by constructors; every case is non-trivial", hx.Scale(3000, 50000), func(c *hx.Case) {
		c.NonTrivial(true)
		v := gen.Pick[any](c.T, "v", true, false, 3, int64(-4), 2.5, 3.0, -0.0, 1e20, "", "x", "$.i", "7", gen.Str(c.T))
		var x expression.Expression
		var err error
		want := v
		if i, ok := v.(int); ok {
			want = int64(i)
		}
		doc := gen.ExprDoc(c.T)
		if s, ok := v.(string); ok && s == "$.i" {
			want = doc["i"]
		}
		switch gen.Int(c.T, 0, 2, "ctor") {
		case 0:
			x, err = expression.NewLiteralExpression(v)
		case 1:
			x, err = expression.NewJSONPathSetExpression("$.p.q", v)
			want = gen.M{"p": gen.M{"q": want}}
		default:
			x = expression.NewJSONPathGetExpression("$.m.x")
			want = doc["m"].(gen.M)["x"]
		}
		c.Step("%#v", x)
		if err != nil {
			c.Failf("%v", err)
		}
		if got := outcome(c, &x, doc); got != canon(want) {
			c.Failf("evaluates to %s, want %s", got, canon(want))
		}
		js, err := json.Marshal(&x)
		if err != nil {
			c.Failf("%v", err)
		}
		var y, z expression.Expression
		if err := json.Unmarshal(js, &y); err != nil {
			c.Failf("%s is rejected: %v", js, err)
		}
		x.DeepCopyInto(&z)
		for _, e := range []*expression.Expression{&y, &z} {
			if got := outcome(c, e, doc); got != canon(want) {
				c.Failf("%s evaluates to %s after a round trip, want %s", js, got, canon(want))
			}
		}
	})
}

// TestPipelineRoundTrip: the reparsed and the copied pipeline compute the same.
func TestPipelineRoundTrip(t *testing.T) {
	hx.Check(t, "random pipelines serialized, reparsed and deep-copied (the copy's original overwritten), run along one history; non-trivial: some delta is emitted",
		hx.Scale(4000, 80000), func(c *hx.Case) {
			p := gen.DrawPipe(c.T, gen.PipeConf{MaxSources: 3})
			c.Step("pipeline %s over %v", ref.Canon(p.Stages), p.Kinds)
			conf, err := gen.Pipeline(p.Stages)
			if err != nil {
				c.Failf("rejected: %v", err)
			}
			js, err := json.Marshal(conf)
			if err != nil {
				c.Failf("cannot be serialized: %v", err)
			}
			var back opv1a1.Pipeline
			if err := json.Unmarshal(js, &back); err != nil {
				c.Failf("%s is rejected: %v", js, err)
			}
			if js2, err := json.Marshal(back); err != nil || string(js) != string(js2) {
				c.Failf("serialized again %s: %s %v", js, js2, err)
			}
			victim := conf.DeepCopy()
			cp := victim.DeepCopy()
			for _, op := range victim.Ops {
				smash(op.GetExpression())
			}
			evs := []pipeline.Evaluator{}
			for i, x := range []opv1a1.Pipeline{conf, back, *cp} {
				ev, err := pipeline.New(gen.Operator, prun.Target, prun.Sources(p.Kinds), x, hx.Log())
				if err != nil {
					c.Failf("variant %d is rejected: %v", i, err)
				}
				evs = append(evs, ev)
			}
			w := gen.NewWorld(p.Kinds, p.ListMaps)
			n := 0
			for i, k := 0, gen.Int(c.T, 1, 10, "events"); i < k; i++ {
				e := w.Draw(c.T, false)
				c.Step("%s", e)
				var want string
				for j, ev := range evs {
					ds, err := ev.Evaluate(e.Delta())
					n += len(ds)
					got := deltas(ds, err, p.Gathered)
					if j == 0 {
						want = got
					} else if got != want {
						c.Failf("variant %d (1: reparsed, 2: copied) gives %s, the original %s", j, got, want)
					}
				}
			}
			c.NonTrivial(n > 0)
		})
}

func deltas(ds []object.Delta, err error, sortLists bool) string {
	if err != nil {
		return "error"
	}
	m := map[string]any{}
	for _, d := range ds {
		m[string(d.Type)+" "+d.Object.GetNamespace()+"/"+d.Object.GetName()] = gen.Norm(d.Object.Object, sortLists)
	}
	return ref.Canon(m)
}

// TestSpecRoundTrip: whole operator specifications through JSON, YAML, unstructured content and deep copy.
func TestSpecRoundTrip(t *testing.T) {
	hx.Check(t, "random operator specifications converted to JSON, YAML and unstructured content and back, deep-copied with the original overwritten; non-trivial: more than one controller or source",
		hx.Scale(4000, 80000), func(c *hx.Case) {
			s := gen.OperatorSpec(c.T)
			c.Step("spec %s", ref.JSON(s))
			op := opv1a1.Operator{ObjectMeta: metav1.ObjectMeta{Name: "op"}}
			parse := func(what string, b []byte, into *opv1a1.OperatorSpec) {
				if err := json.Unmarshal(b, into); err != nil {
					c.Failf("%s is rejected: %v\n%s", what, err, b)
				}
			}
			parse("spec", []byte(ref.JSON(s)), &op.Spec)
			meaning := func(o opv1a1.Operator) string {
				b, err := json.Marshal(o.Spec)
				if err != nil {
					c.Failf("cannot be serialized: %v", err)
				}
				return string(b)
			}
			want := meaning(op)
			// everything that was given must be in the serialized form
			var raw any
			if err := json.Unmarshal([]byte(want), &raw); err != nil {
				c.Failf("%v", err)
			}
			var src any
			_ = json.Unmarshal([]byte(ref.JSON(s)), &src)
			if m := missing(src, raw, "spec"); m != "" {
				c.Failf("serialization loses %s:\n%s", m, want)
			}
			var o2 opv1a1.Operator
			parse("JSON", []byte(want), &o2.Spec)
			if meaning(o2) != want {
				c.Failf("after JSON: %s", meaning(o2))
			}
			y, err := yaml.Marshal(op)
			if err != nil {
				c.Failf("YAML: %v", err)
			}
			var o3 opv1a1.Operator
			if err := yaml.Unmarshal(y, &o3); err != nil || meaning(o3) != want {
				c.Failf("after YAML: %s %v", meaning(o3), err)
			}
			u, err := runtime.DefaultUnstructuredConverter.ToUnstructured(&op)
			if err != nil {
				c.Failf("to unstructured: %v", err)
			}
			var o4 opv1a1.Operator
			if err := runtime.DefaultUnstructuredConverter.FromUnstructured(u, &o4); err != nil || meaning(o4) != want {
				c.Failf("after unstructured: %s %v", meaning(o4), err)
			}
			victim := op.DeepCopy()
			cp := victim.DeepCopyObject().(*opv1a1.Operator)
			smashSpec(&victim.Spec)
			if meaning(*cp) != want {
				c.Failf("the copy after its original was overwritten: %s", meaning(*cp))
			}
			n := len(op.Spec.Controllers)
			for _, ct := range op.Spec.Controllers {
				n = max(n, len(ct.Sources))
			}
			c.NonTrivial(n > 1)
		})
}

// missing looks for parts of a that are not in b; operator aliases and empty values may differ.
func missing(a, b any, path string) string {
	switch x := a.(type) {
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok {
			return path
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok {
				switch k {
				case "@demux":
					w, ok = y["@unwind"]
				case "@mux":
					w, ok = y["@gather"]
				}
			}
			if !ok {
				if l, isL := v.([]any); v == nil || isL && len(l) == 0 {
					continue
				}
				if m, isM := v.(map[string]any); isM && len(m) == 0 {
					continue
				}
				return path + "." + k
			}
			if m := missing(v, w, path+"."+k); m != "" {
				return m
			}
		}
		return ""
	case []any:
		y, ok := b.([]any)
		if !ok && len(x) == 1 { // a single pipeline stage may lose its list
			return missing(x[0], b, path+"[0]")
		}
		if len(x) != len(y) {
			return path
		}
		for i := range x {
			if m := missing(x[i], y[i], fmt.Sprintf("%s[%d]", path, i)); m != "" {
				return m
			}
		}
		return ""
	}
	if !reflect.DeepEqual(a, b) {
		return path
	}
	return ""
}

func smashSpec(s *opv1a1.OperatorSpec) {
	for i := range s.Controllers {
		ct := &s.Controllers[i]
		ct.Name = "smashed"
		for j := range ct.Sources {
			x := &ct.Sources[j]
			for _, p := range []*string{x.Group, x.Version, x.Namespace} {
				if p != nil {
					*p = "smashed"
				}
			}
			x.Kind = "smashed"
			if x.LabelSelector != nil {
				for k := range x.LabelSelector.MatchLabels {
					x.LabelSelector.MatchLabels[k] = "smashed"
				}
				for k := range x.LabelSelector.MatchExpressions {
					for l := range x.LabelSelector.MatchExpressions[k].Values {
						x.LabelSelector.MatchExpressions[k].Values[l] = "smashed"
					}
					x.LabelSelector.MatchExpressions[k].Key = "smashed"
				}
			}
			smashPred(x.Predicate)
			if x.Parameters != nil {
				for k := range x.Parameters.Raw {
					x.Parameters.Raw[k] = '0'
				}
			}
		}
		for _, op := range ct.Pipeline.Ops {
			smash(op.GetExpression())
		}
		for _, p := range []*string{ct.Target.Group, ct.Target.Version} {
			if p != nil {
				*p = "smashed"
			}
		}
	}
}

func smashPred(p *predicate.Predicate) {
	if p == nil {
		return
	}
	if p.BasicPredicate != nil {
		*p.BasicPredicate = "smashed"
	}
	if p.BoolPredicate != nil {
		for k, l := range *p.BoolPredicate {
			for i := range l {
				smashPred(&l[i])
			}
			(*p.BoolPredicate)[k] = l
		}
		(*p.BoolPredicate)["smashed"] = nil
	}
}

// feed gives arbitrary bytes to every parser and uses whatever is accepted.
func feed(c *hx.Case, b []byte) {
	accepted := false
	doc := gen.ExprDoc(c.T)
	c.NoPanic("using the input", func() {
		var e expression.Expression
		if err := json.Unmarshal(b, &e); err == nil {
			accepted = true
			c.Class("expression accepted")
			o := outcome(c, &e, doc)
			c.ClassIf(o != "error", "expression has a value")
			_ = e.String()
			js, err := json.Marshal(&e)
			if err != nil {
				c.Failf("accepted expression cannot be serialized: %v", err)
			}
			var y expression.Expression
			if err := json.Unmarshal(js, &y); err != nil {
				c.Failf("the serialized form %s of an accepted expression is rejected: %v", js, err)
			}
			if !timed(&e) {
				if o2 := outcome(c, &y, doc); o2 != o {
					c.Failf("%s evaluates to %s, the original to %s", js, o2, o)
				}
			}
		}
		var p opv1a1.Pipeline
		if err := json.Unmarshal(b, &p); err == nil {
			accepted = true
			c.Class("pipeline accepted")
			if _, err := json.Marshal(p); err != nil {
				c.Failf("accepted pipeline cannot be serialized: %v", err)
			}
			kinds := gen.Kinds[:gen.Int(c.T, 1, 2, "nkinds")]
			ev, err := pipeline.New(gen.Operator, prun.Target, prun.Sources(kinds), p, hx.Log())
			if err == nil {
				c.Class("pipeline built")
				for i := 0; i < 4; i++ {
					d := gen.ExprDoc(c.T)
					d["metadata"] = gen.M{"name": fmt.Sprint("n", i%2), "namespace": "default", "labels": gen.M{"app": "web"}}
					d["spec"] = gen.M{"a": gen.Value(c.T, 2), "l": gen.L{int64(1)}}
					k := gen.Pick(c.T, "k", kinds...)
					d["kind"], d["apiVersion"] = k, gen.GVK(k).GroupVersion().String()
					typ := object.Upserted
					if i == 3 && gen.Bool(c.T, "del") {
						typ = object.Deleted
					}
					if ds, err := ev.Evaluate(object.Delta{Type: typ, Object: gen.Obj(d)}); err == nil && len(ds) > 0 {
						c.Class("pipeline emits")
					}
				}
				_, _ = ev.Sync()
			}
		}
		var pr predicate.Predicate
		if err := json.Unmarshal(b, &pr); err == nil {
			accepted = true
			c.Class("predicate accepted")
			_ = pr.DeepCopy()
			if tp, err := pr.ToPredicate(); err == nil {
				c.Class("predicate built")
				o := gen.Obj(gen.M{"metadata": gen.M{"name": "x"}})
				tp.Create(event.CreateEvent{Object: o})
				tp.Update(event.UpdateEvent{ObjectOld: o, ObjectNew: o})
				tp.Delete(event.DeleteEvent{Object: o})
				if js, err := json.Marshal(pr); err != nil {
					c.Failf("accepted predicate cannot be serialized: %v %s", err, js)
				}
			}
		}
		var sp opv1a1.OperatorSpec
		if err := json.Unmarshal(b, &sp); err == nil {
			c.Class("spec accepted")
			_ = sp.DeepCopy()
		}
	})
	c.NonTrivial(accepted)
}

// timed tells whether the expression's value is not a function of its subject: random numbers, the
// current time, and paths that pick one of several fields of a map.
func timed(e *expression.Expression) bool {
	if e == nil {
		return false
	}
	if s, ok := e.Literal.(string); ok && manyPath(s) {
		return true
	}
	if e.Op == "@rnd" || e.Literal == "@now" || timed(e.Arg) {
		return true
	}
	switch l := e.Literal.(type) {
	case []expression.Expression:
		for i := range l {
			if timed(&l[i]) {
				return true
			}
		}
	case map[string]expression.Expression:
		for k, v := range l {
			if timed(&v) || manyPath(k) {
				return true
			}
		}
	}
	return false
}

func manyPath(s string) bool {
	return strings.HasPrefix(s, "$") && strings.ContainsAny(s, "*?") || strings.Contains(s, "..")
}

// TestFuzzJSON: JSON that resembles the language.
func TestFuzzJSON(t *testing.T) {
	hx.Check(t, "arbitrary JSON with operator, stage and path-like keys given to every parser; what is accepted is evaluated, serialized, run as a pipeline and as a predicate; non-trivial: accepted by some parser",
		hx.Scale(30000, 1000000), func(c *hx.Case) {
			v := gen.JSONish(c.T, gen.Int(c.T, 1, 5, "depth"))
			if gen.Prob(c.T, 5, "stages") {
				l := gen.L{}
				for i, n := 0, gen.Int(c.T, 1, 3, "n"); i < n; i++ {
					st := gen.Pick(c.T, "stage", "@select", "@project", "@unwind", "@gather", "@join")
					var a any = gen.JSONish(c.T, 3)
					if st == "@gather" {
						a = gen.L{gen.JSONish(c.T, 2), gen.WildPath(c.T)}
					}
					if st == "@project" {
						a = gen.L{gen.M{"metadata": "$.metadata"}, gen.JSONish(c.T, 2), gen.M{gen.WildPath(c.T): gen.JSONish(c.T, 1)}}
					}
					l = append(l, gen.M{st: a})
				}
				v = l
			}
			b := []byte(ref.JSON(v))
			c.Step("%s", b)
			feed(c, b)
		})
}

// TestFuzzBytes: mutated valid inputs.
func TestFuzzBytes(t *testing.T) {
	hx.Check(t, "valid expressions, pipelines, predicates and specifications with 1-4 byte-level mutations, or random bytes, given to every parser; non-trivial: accepted by some parser",
		hx.Scale(30000, 1000000), func(c *hx.Case) {
			var b []byte
			switch gen.Int(c.T, 0, 5, "base") {
			case 0:
				for i, n := 0, gen.Int(c.T, 0, 12, "len"); i < n; i++ {
					b = append(b, byte(gen.Int(c.T, 0, 255, "b")))
				}
			case 1:
				b = []byte(ref.JSON(gen.Predicate(c.T, 3)))
			case 2:
				l := gen.L{}
				for _, s := range gen.DrawPipe(c.T, gen.PipeConf{MaxSources: 2}).Stages {
					l = append(l, gen.M(s))
				}
				b = []byte(ref.JSON(l))
			case 3:
				b = []byte(ref.JSON(gen.OperatorSpec(c.T)))
			default:
				b = []byte(ref.JSON(gen.Scope{}.Any(c.T, 3)))
			}
			b = gen.Mutate(c.T, b)
			c.Step("%q", b)
			feed(c, b)
		})
}

// TestFuzzPaths: arbitrary path strings for reading and writing.
func TestFuzzPaths(t *testing.T) {
	hx.Check(t, "path-like strings used for reading and writing random documents; non-trivial: the path starts with $ and is accepted",
		hx.Scale(40000, 1000000), func(c *hx.Case) {
			p := gen.WildPath(c.T)
			doc := gen.ExprDoc(c.T)
			doc["a"] = gen.Value(c.T, 3)
			val := gen.Value(c.T, 2)
			c.Step("path %q doc %s value %s", p, ref.JSON(doc), ref.JSON(val))
			ok := false
			c.NoPanic("path access", func() {
				_, err := expression.GetJSONPath(expression.EvalCtx{Object: doc, Subject: doc}, p)
				ok = err == nil
				_, _ = expression.GetJSONPathRaw(p, doc)
				_ = expression.SetJSONPath(expression.EvalCtx{Object: doc}, p, val, ref.CopyMap(doc))
				_ = expression.SetJSONPathRaw(p, val, ref.CopyMap(doc))
			})
			c.NonTrivial(ok && len(p) > 1 && p[0] == '$')
		})
}

func TestRegressions(t *testing.T) {
	for _, js := range []string{`null`, `{"@any":[{"@gt":["$$",1]},[1,2]]}`, `3.0`, `{"@list":[[1,2],[3,4]]}`, `{"@dict":{"a":1}}`, `""`, `{"@eq":["$.f",2.0]}`} {
		hx.Regress(t, "round trip of "+js, func() string {
			var x, y, z expression.Expression
			if err := json.Unmarshal([]byte(js), &x); err != nil {
				return err.Error()
			}
			b, err := json.Marshal(&x)
			if err != nil {
				return err.Error()
			}
			if err := json.Unmarshal(b, &y); err != nil {
				return err.Error()
			}
			x.DeepCopyInto(&z)
			if !reflect.DeepEqual(x, y) || !reflect.DeepEqual(x, z) {
				return fmt.Sprintf("%s becomes %s", js, b)
			}
			return ""
		})
	}
}
