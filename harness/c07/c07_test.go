package c07

import (
	"encoding/json"
	"errors"
	"math"
	"regexp"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/expression"
)

func show(v any) string { return ref.JSON(v) }

// same is structural equality in which NaN equals NaN.
func same(a, b any) bool {
	switch x := a.(type) {
	case float64:
		y, ok := b.(float64)
		return ok && (x == y || math.IsNaN(x) && math.IsNaN(y))
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !same(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !same(v, w) {
				return false
			}
		}
		return true
	}
	return ref.Equal(a, b)
}

// ops counts the operators of an expression.
func ops(e any, c *hx.Case) int {
	n := 0
	switch x := e.(type) {
	case []any:
		for _, y := range x {
			n += ops(y, c)
		}
	case map[string]any:
		for k, y := range x {
			if len(x) == 1 && len(k) > 0 && k[0] == '@' {
				n++
				c.Class(k)
			}
			n += ops(y, c)
		}
	}
	return n
}

func check(c *hx.Case, e any, doc gen.M) {
	c.Step("expression %s", show(e))
	c.Step("subject %s", show(doc))
	n := ops(e, c)
	want, werr := ref.Eval(e, ref.Ctx{Obj: ref.Copy(doc)})
	x, err := gen.Expr(e)
	if err != nil {
		c.Failf("the expression is not accepted: %v", err)
	}
	subj := ref.CopyMap(doc)
	for i := 0; i < 2; i++ {
		var got any
		var gerr error
		c.NoPanic("Evaluate", func() { got, gerr = x.Evaluate(expression.EvalCtx{Object: subj}) })
		if !same(subj, doc) {
			c.Failf("evaluation %d modified the subject to %s", i, show(subj))
		}
		if errors.Is(werr, ref.ErrUndefined) {
			c.Class("undefined")
			return
		}
		if werr != nil {
			if gerr == nil {
				c.Failf("evaluation %d gives %s instead of an error (%v)", i, show(got), werr)
			}
			continue
		}
		if gerr != nil {
			c.Failf("evaluation %d fails: %v; want %s", i, gerr, show(want))
		}
		if !same(got, want) {
			c.Failf("evaluation %d gives %s (%T); want %s (%T)", i, show(got), got, show(want), want)
		}
	}
	c.ClassIf(werr != nil, "error")
	c.ClassIf(werr == nil, "value")
	c.NonTrivial(n >= 2)
}

// TestTyped: well typed expressions over all operators, with erroneous subexpressions where lazy operators must not look.
func TestTyped(t *testing.T) {
	hx.Check(t, "typed expressions of depth <=4 on random documents against the reference interpreter, evaluated twice; "+
		"non-trivial: at least two operators", hx.Scale(120000, 3000000), func(c *hx.Case) {
		s := gen.Scope{Bombs: true}
		var e any
		d := gen.Int(c.T, 1, 4, "depth")
		switch gen.Int(c.T, 0, 4, "type") {
		case 0:
			e = s.Bool(c.T, d)
		case 1:
			e = s.Num(c.T, d)
		case 2:
			e = s.Str(c.T, d)
		case 3:
			e = s.List(c.T, d, "")
		default:
			e = s.Any(c.T, d)
		}
		check(c, e, gen.ExprDoc(c.T))
	})
}

// TestUntyped: arbitrary operator trees; the result is a value exactly when the reference gives one.
func TestUntyped(t *testing.T) {
	hx.Check(t, "arbitrary, mostly ill typed operator trees of depth <=3 against the reference interpreter; "+
		"non-trivial: at least two operators", hx.Scale(120000, 3000000), func(c *hx.Case) {
		check(c, gen.Scope{}.Untyped(c.T, gen.Int(c.T, 1, 3, "depth")), gen.ExprDoc(c.T))
	})
}

var hashRE = regexp.MustCompile(`^[0-9a-z]{6}$`)

// TestHashRndNow: the operators whose value the model does not fix.
func TestHashRndNow(t *testing.T) {
	hx.Check(t, "@hash agrees for equal and differs for different values, @rnd stays in its range, @now is the time; "+
		"every case is non-trivial", hx.Scale(8000, 200000), func(c *hx.Case) {
		c.NonTrivial(true)
		eval := func(e any, obj any) (any, error) {
			x, err := gen.Expr(e)
			if err != nil {
				c.Failf("rejected: %v", err)
			}
			var v any
			c.NoPanic("Evaluate", func() { v, err = x.Evaluate(expression.EvalCtx{Object: obj}) })
			return v, err
		}
		switch gen.Int(c.T, 0, 3, "what") {
		case 0, 1:
			a, b := gen.Value(c.T, 3), gen.Value(c.T, 3)
			doc := gen.M{"a": a, "b": b, "c": ref.Copy(a)}
			c.Step("hash of %s and %s", show(a), show(b))
			ha, e1 := eval(gen.M{"@hash": "$.a"}, doc)
			hb, e2 := eval(gen.M{"@hash": "$.b"}, doc)
			hc, e3 := eval(gen.M{"@hash": "$.c"}, doc)
			if e1 != nil || e2 != nil || e3 != nil {
				c.Failf("errors %v %v %v", e1, e2, e3)
			}
			for _, h := range []any{ha, hb, hc} {
				if s, ok := h.(string); !ok || !hashRE.MatchString(s) {
					c.Failf("not a 6-character base36 string: %v", h)
				}
			}
			if ha != hc {
				c.Failf("equal values hash differently: %v %v", ha, hc)
			}
			if (ha == hb) != ref.Equal(a, b) {
				c.Failf("hashes %v, %v", ha, hb)
			}
			if w := ref.Hash(a); ha != w {
				c.Failf("hash %v, the first 6 digits of the base36 MD5 are %v", ha, w)
			}
			c.Class("hash")
		case 2:
			lo := int64(gen.Int(c.T, -5, 300, "lo"))
			hi := lo + int64(gen.Int(c.T, -2, 9, "span"))
			if gen.Prob(c.T, 1, "huge") {
				lo, hi = math.MinInt64+1, math.MaxInt64
			}
			c.Step("rnd in [%d,%d)", lo, hi)
			v, err := eval(gen.M{"@rnd": gen.L{lo, hi}}, nil)
			if lo >= hi {
				if err == nil {
					c.Failf("empty range gives %v", v)
				}
				return
			}
			if hi-lo < 0 {
				return // no value needed, only no crash
			}
			if i, ok := v.(int64); err != nil || !ok || i < lo || i >= hi {
				c.Failf("got %v %v", v, err)
			}
			c.Class("rnd")
		default:
			c.Step("@now")
			before := time.Now().UTC().Truncate(time.Second)
			v, err := eval(gen.Pick[any](c.T, "form", "@now", gen.M{"@string": "@now"}, gen.L{int64(1), "@now"}), nil)
			after := time.Now().UTC()
			if err != nil {
				c.Failf("error %v", err)
			}
			if l, ok := v.([]any); ok && len(l) == 2 {
				v = l[1]
			}
			s, _ := v.(string)
			ts, err := time.Parse(time.RFC3339, s)
			if err != nil || ts.Before(before) || ts.After(after) {
				c.Failf("got %v %v between %v and %v", v, err, before, after)
			}
			c.Class("now")
		}
	})
}

func TestRegressions(t *testing.T) {
	ev := func(js string, doc gen.M) (any, error) {
		var x expression.Expression
		if err := json.Unmarshal([]byte(js), &x); err != nil {
			return nil, err
		}
		return x.Evaluate(expression.EvalCtx{Object: doc})
	}
	for name, r := range map[string]struct {
		js   string
		doc  gen.M
		want any
	}{
		"null literal":            {`null`, nil, nil},
		"null in a list":          {`{"@map":[{"@isnil":"$$"},"$.l"]}`, gen.M{"l": gen.L{nil, int64(1)}}, gen.L{true, false}},
		"null local subject":      {`{"@map":["$$.a","$.l"]}`, gen.M{"a": int64(7), "l": gen.L{nil, gen.M{"a": int64(1)}}}, gen.L{nil, int64(1)}},
		"float to string":         {`{"@string":1.5}`, nil, "1.5"},
		"lists compared":          {`{"@eq":[[1,2],[1,2]]}`, nil, true},
		"none":                    {`{"@none":[{"@gt":["$$",5]},[1,2]]}`, nil, true},
		"values are not paths":    {`{"x":"$.s","y":{"@string":"$.s"},"z":"$.t"}`, gen.M{"s": "$.t", "t": "@now"}, gen.M{"x": "$.t", "y": "$.t", "z": "@now"}},
		"empty string":            {`{"a":""}`, nil, gen.M{"a": ""}},
		"overlapping constructor": {`{"$.a":"$.m","$.a.b":1}`, gen.M{"m": gen.M{"c": int64(2)}}, gen.M{"a": gen.M{"c": int64(2), "b": int64(1)}}},
	} {
		hx.Regress(t, name, func() string {
			before := ref.Copy(any(r.doc))
			got, err := ev(r.js, r.doc)
			if err != nil || !same(got, r.want) {
				return show(got) + " instead of " + show(r.want)
			}
			if !same(any(r.doc), before) {
				return "subject modified to " + show(r.doc)
			}
			return ""
		})
	}
	for _, js := range []string{`{"@map":[1]}`, `{"@map":[]}`, `{"@rnd":[3,3]}`, `{"":1}`, `{"@rnd":[3,1]}`, `{"@range":[0,9000000000000000000]}`,
		`{"@range":[-9000000000000000000,9000000000000000000]}`} {
		hx.Regress(t, "error for "+js, func() string {
			if got, err := ev(js, nil); err == nil {
				return show(got)
			}
			return ""
		})
	}
}
