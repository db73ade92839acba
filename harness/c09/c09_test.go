package c09

import (
	"encoding/json"
	"fmt"
	"strings"
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/prun"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
)

var keys = []string{"a", "b", "c", "x.y", "spec", "a b", "é", "0", "a-b", "app/x", "name"}

// doc draws a document with awkward keys.
func doc(t gen.T, d int) gen.M {
	m := gen.M{}
	for i, n := 0, gen.Int(t, 1, 4, "fields"); i < n; i++ {
		m[gen.Pick(t, "k", keys...)] = value(t, d)
	}
	return m
}

func value(t gen.T, d int) any {
	if d <= 0 || gen.Prob(t, 4, "leaf") {
		return gen.Scalar(t)
	}
	if gen.Prob(t, 6, "list") {
		l := gen.L{}
		for i, n := 0, gen.Int(t, 0, 3, "len"); i < n; i++ {
			l = append(l, value(t, d-1))
		}
		return l
	}
	return doc(t, d-1)
}

// path draws a path: it mostly follows the document, and leaves it at some point.
func path(t gen.T, v any) []ref.Seg {
	segs := []ref.Seg{}
	for i, n := 0, gen.Int(t, 1, 4, "segs"); i < n; i++ {
		follow := gen.Prob(t, 12, "follow")
		s := ref.Seg{}
		switch x := v.(type) {
		case gen.M:
			if follow && len(x) > 0 {
				ks := []string{}
				for _, k := range keys {
					if _, ok := x[k]; ok {
						ks = append(ks, k)
					}
				}
				s.Key = gen.Pick(t, "key", ks...)
			} else if gen.Prob(t, 1, "wrong kind") {
				s = ref.Seg{IsI: true, Idx: gen.Int(t, -1, 1, "idx")}
			} else {
				s.Key = gen.Pick(t, "key", keys...)
			}
		case gen.L:
			if follow && len(x) > 0 {
				s = ref.Seg{IsI: true, Idx: gen.Int(t, -len(x), len(x)-1, "idx")}
			} else if gen.Prob(t, 2, "wrong kind") {
				s.Key = gen.Pick(t, "key", keys...)
			} else {
				s = ref.Seg{IsI: true, Idx: gen.Int(t, -4, 4, "idx")}
			}
		default:
			if gen.Prob(t, 4, "index") {
				s = ref.Seg{IsI: true, Idx: gen.Int(t, -1, 2, "idx")}
			} else {
				s.Key = gen.Pick(t, "key", keys...)
			}
		}
		segs = append(segs, s)
		v = ref.GetSegs([]ref.Seg{s}, v)
	}
	return segs
}

// text writes the path in one of its notations.
func text(t gen.T, segs []ref.Seg) string {
	b := "$"
	for _, s := range segs {
		switch {
		case s.IsI:
			b += fmt.Sprintf("[%d]", s.Idx)
		case strings.ContainsAny(s.Key, ". -/") || gen.Prob(t, 3, "bracket"):
			q := gen.Pick(t, "quote", "'", "\"")
			b += "[" + q + s.Key + q + "]"
		default:
			b += "." + s.Key
		}
	}
	return b
}

func show(segs []ref.Seg) string { return fmt.Sprintf("%+v", segs) }

// TestGetSet: the law of paths on raw data.
func TestGetSet(t *testing.T) {
	hx.Check(t, "random document with keys of all kinds, random path of 1-4 fields and (also negative) indices in dot and bracket notation that mostly follows the document; reading must give the reference value and leave the document alone, writing must give the document of the reference setter (and read back as written), or an error exactly if the reference refuses; non-trivial: the write succeeds and the path has at least 2 segments",
		hx.Scale(80000, 3000000), func(c *hx.Case) {
			d := doc(c.T, 4)
			segs := path(c.T, d)
			p := text(c.T, segs)
			v := value(c.T, 2)
			js := ref.JSON(d)
			c.Step("document %s path %s value %s", js, p, ref.JSON(v))
			want := ref.GetSegs(segs, d)
			for i := 0; i < 2; i++ {
				var got any
				var err error
				if i == 0 {
					got, err = expression.GetJSONPathRaw(p, d)
				} else {
					got, err = expression.GetJSONPath(expression.EvalCtx{Object: d}, p)
				}
				if err != nil {
					c.Failf("reading: %v", err)
				}
				if ref.JSON(got) != ref.JSON(want) {
					c.Failf("reads %s, the value is %s", ref.JSON(got), ref.JSON(want))
				}
				if ref.JSON(d) != js {
					c.Failf("reading changed the document to %s", ref.JSON(d))
				}
			}
			c.ClassIf(want != nil, "reads a value")
			exp, got := ref.CopyMap(d), ref.CopyMap(d)
			experr := ref.SetSegs(segs, v, exp)
			var err error
			if gen.Bool(c.T, "raw") {
				err = expression.SetJSONPathRaw(p, v, got)
			} else {
				err = expression.SetJSONPath(expression.EvalCtx{Object: d}, p, v, got)
			}
			if experr != nil {
				c.Class("cannot be set")
				if err == nil {
					c.Failf("writing succeeds although the path does not fit (%v): %s", experr, ref.JSON(got))
				}
				return
			}
			if err != nil {
				c.Failf("writing: %v", err)
			}
			if ref.JSON(got) != ref.JSON(exp) {
				c.Failf("writing gives %s, want %s", ref.JSON(got), ref.JSON(exp))
			}
			back, err := expression.GetJSONPathRaw(p, got)
			if err != nil || ref.JSON(back) != ref.JSON(v) {
				c.Failf("reads back %s %v", ref.JSON(back), err)
			}
			c.NonTrivial(len(segs) > 1)
		})
}

// TestFilters: paths with a filter on a list of objects.
func TestFilters(t *testing.T) {
	hx.Check(t, "lists of up to 5 objects read and written through $.l[?(@.k OP v)].f, and $.l[*].f; a read gives the first match, a write changes the matching objects only; non-trivial: some but not all items match",
		hx.Scale(15000, 400000), func(c *hx.Case) {
			l := gen.L{}
			for i, n := 0, gen.Int(c.T, 0, 5, "n"); i < n; i++ {
				m := gen.M{"f": int64(gen.Int(c.T, 0, 9, "f"))}
				if gen.Prob(c.T, 13, "has k") {
					m["k"] = int64(gen.Int(c.T, 0, 3, "k"))
				}
				if gen.Prob(c.T, 4, "no f") {
					delete(m, "f")
				}
				l = append(l, m)
			}
			val := int64(gen.Int(c.T, 0, 3, "v"))
			op := gen.Pick(c.T, "op", "==", "!=", "<", ">", "*")
			p := fmt.Sprintf("$.l[?(@.k %s %d)].f", op, val)
			if op == "*" {
				p = "$.l[*].f"
			}
			d := gen.M{"l": l, "o": gen.M{"l": ref.Copy(l)}}
			c.Step("document %s path %s", ref.JSON(d), p)
			match := func(m gen.M) bool {
				k, has := m["k"].(int64)
				switch op {
				case "==":
					return has && k == val
				case "!=":
					return !has || k != val
				case "<":
					return has && k < val
				case ">":
					return has && k > val
				}
				return true
			}
			var want any
			n := 0
			exp := ref.CopyMap(d)
			for _, x := range exp["l"].(gen.L) {
				m := x.(gen.M)
				if match(m) {
					if f, ok := m["f"]; ok && want == nil {
						want = f
					}
					m["f"] = "written"
					n++
				}
			}
			got, err := expression.GetJSONPath(expression.EvalCtx{Object: d}, p)
			if err != nil || ref.JSON(got) != ref.JSON(want) {
				c.Failf("reads %s %v, want %s", ref.JSON(got), err, ref.JSON(want))
			}
			if err := expression.SetJSONPath(expression.EvalCtx{}, p, "written", d); err != nil {
				c.Failf("writing: %v", err)
			}
			if ref.JSON(d) != ref.JSON(exp) {
				c.Failf("writing gives %s, want %s", ref.JSON(d), ref.JSON(exp))
			}
			c.NonTrivial(n > 0 && n < len(l))
		})
}

// ctor draws an object constructor whose keys are names and paths.
func ctor(c *hx.Case, d gen.M) gen.M {
	m := gen.M{}
	for i, n := 0, gen.Int(c.T, 1, 4, "keys"); i < n; i++ {
		var k string
		switch gen.Int(c.T, 0, 3, "key kind") {
		case 0:
			k = gen.Pick(c.T, "k", keys...)
			if gen.Prob(c.T, 4, "odd") {
				k = gen.Pick(c.T, "oddk", "a[0]", "[x]", "a[1].b", "a]", "[", "x.y.", ".a", "a$.b", "a..b", "a.*", "['a']", "a$")
			}
		case 1:
			k = text(c.T, path(c.T, d))
		default:
			segs := []ref.Seg{}
			for j, n := 0, gen.Int(c.T, 1, 3, "segs"); j < n; j++ {
				segs = append(segs, ref.Seg{Key: gen.Pick(c.T, "k", keys[:5]...)})
			}
			if gen.Prob(c.T, 2, "index") {
				segs = append(segs, ref.Seg{IsI: true, Idx: gen.Int(c.T, 0, 3, "idx")})
			}
			k = text(c.T, segs)
		}
		var v any
		switch gen.Int(c.T, 0, 3, "value kind") {
		case 0:
			v = text(c.T, path(c.T, d))
		case 1:
			v = ctorLeaf(c, d)
		default:
			v = literal(value(c.T, 2))
		}
		m[k] = v
	}
	if gen.Prob(c.T, 1, "root") {
		m["$."] = gen.Pick(c.T, "rootv", any("$."), any(literal(doc(c.T, 2))))
	}
	return m
}

func ctorLeaf(c *hx.Case, d gen.M) any {
	return gen.M{gen.Pick(c.T, "k", "a", "b"): text(c.T, path(c.T, d)), text(c.T, []ref.Seg{{Key: "a"}, {Key: "c"}}): int64(1)}
}

// literal makes a value safe as an expression: no empty strings as keys, no operators.
func literal(v any) any { return v }

// TestProjection: constructors and sequential steps in a @project stage.
func TestProjection(t *testing.T) {
	hx.Check(t, "projections of 1-4 object constructors with name and path keys over a random document, evaluated by a pipeline; the emitted object must equal the reference (set in key order, merged in step order), or be refused exactly if the reference refuses; non-trivial: accepted with a path key or at least two steps",
		hx.Scale(30000, 800000), func(c *hx.Case) {
			d := doc(c.T, 3)
			steps := gen.L{gen.M{"metadata": gen.M{"name": "n", "namespace": "ns"}}}
			n := gen.Int(c.T, 1, 4, "steps")
			for i := 0; i < n; i++ {
				steps = append(steps, ctor(c, d))
			}
			js, _ := json.Marshal(steps)
			c.Step("project %s over %s", js, ref.JSON(d))
			src := ref.CopyMap(d)
			src["metadata"] = gen.M{"name": "n", "namespace": "ns"}
			src["apiVersion"], src["kind"] = gen.GVK("Kind0").GroupVersion().String(), "Kind0"
			want, experr := ref.Project(steps, src)
			p := []ref.Stage{{"@project": steps}}
			conf, err := gen.Pipeline(p)
			if err != nil {
				c.Failf("rejected: %v", err)
			}
			ev, err := pipeline.New(gen.Operator, prun.Target, prun.Sources([]string{"Kind0"}), conf, hx.Log())
			if err != nil {
				c.Failf("rejected: %v", err)
			}
			ds, err := ev.Evaluate(object.Delta{Type: object.Added, Object: gen.Obj(ref.CopyMap(src))})
			if experr != nil {
				c.Class("refused")
				if err == nil {
					c.Failf("accepted although %v: %s", experr, ref.JSON(ds[0].Object.Object))
				}
				return
			}
			if err != nil || len(ds) != 1 {
				c.Failf("%d deltas, error %v, want %s", len(ds), err, ref.JSON(want))
			}
			got := ref.CopyMap(ds[0].Object.Object)
			for _, k := range []string{"apiVersion", "kind"} {
				delete(got, k)
				delete(want, k)
			}
			if ref.JSON(got) != ref.JSON(want) {
				c.Failf("gives %s, want %s", ref.JSON(got), ref.JSON(want))
			}
			c.NonTrivial(n > 1 || strings.Contains(string(js), "\"$"))
			c.ClassIf(n > 1, "several steps")
		})
}

// TestMerge: MergeAny against the reference, without aliasing.
func TestMerge(t *testing.T) {
	hx.Check(t, "merges of 2-4 random documents against the reference; the arguments must stay as they were, also when the result is overwritten in depth; non-trivial: some key is common",
		hx.Scale(20000, 400000), func(c *hx.Case) {
			var acc any
			var want any
			common := false
			parts := []any{}
			for i, n := 0, gen.Int(c.T, 2, 4, "parts"); i < n; i++ {
				d := doc(c.T, 3)
				c.Step("%s", ref.JSON(d))
				if w, ok := want.(gen.M); ok {
					for k := range d {
						_, has := w[k]
						common = common || has
					}
				}
				parts = append(parts, d)
				before := ref.JSON(parts)
				accBefore := ref.JSON(acc)
				x, err := object.MergeAny(acc, d)
				if err != nil {
					c.Failf("%v", err)
				}
				want = ref.Merge(want, d)
				if ref.JSON(x) != ref.JSON(want) {
					c.Failf("gives %s, want %s", ref.JSON(x), ref.JSON(want))
				}
				if ref.JSON(parts) != before || ref.JSON(acc) != accBefore {
					c.Failf("an argument is changed")
				}
				y, err := object.MergeAny(acc, d)
				if err != nil {
					c.Failf("%v", err)
				}
				gen.Scribble(y)
				if ref.JSON(parts) != before || ref.JSON(acc) != accBefore || ref.JSON(x) != ref.JSON(want) {
					c.Failf("the result shares content with an argument")
				}
				acc = x
			}
			c.NonTrivial(common)
		})
}

// TestKnown probes the recorded findings.
func TestKnown(t *testing.T) {
	hx.Known(t, "C09-dash-shorthand", "the documented setter $.metadata.annotations.new-annotation (a dash in dot notation) is refused", func() string {
		m := map[string]any{"metadata": map[string]any{"annotations": map[string]any{}}}
		if err := expression.SetJSONPath(expression.EvalCtx{}, "$.metadata.annotations.new-annotation", "true", m); err != nil {
			return err.Error()
		}
		return ""
	})
}

func TestRegressions(t *testing.T) {
	for _, p := range []string{"$.l.x", "$.m[0]", "$.n.x", "$.l[7]", "$.l[99999999999999999999]", "$.m..a..a"} {
		hx.Regress(t, "setting "+p+" is refused", func() string {
			d := gen.M{"l": gen.L{int64(1)}, "m": gen.M{"k": int64(1)}, "n": nil}
			if err := expression.SetJSONPath(expression.EvalCtx{}, p, gen.M{}, d); err == nil {
				return ref.JSON(d)
			}
			return ""
		})
	}
}
