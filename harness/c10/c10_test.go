package c10

import (
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/object"
)

func hasNull(v any) bool {
	switch x := v.(type) {
	case nil:
		return true
	case gen.M:
		for _, y := range x {
			if hasNull(y) {
				return true
			}
		}
	case gen.L:
		for _, y := range x {
			if hasNull(y) {
				return true
			}
		}
	}
	return false
}

// derive makes a patch out of a document: some of its fields kept, changed, nulled or added.
func derive(t gen.T, v any, d int) any {
	switch x := v.(type) {
	case gen.M:
		if gen.Prob(t, 1, "retype") {
			return gen.Value(t, d)
		}
		m := gen.M{}
		for _, k := range gen.FieldNames {
			w, ok := x[k]
			switch gen.Int(t, 0, 5, "do") {
			case 0:
				m[k] = nil
			case 1, 2, 3:
				if ok {
					m[k] = derive(t, w, d-1)
				}
			case 4:
				if gen.Prob(t, 4, "add") {
					m[k] = gen.Value(t, d)
				}
			}
		}
		return m
	case gen.L:
		if gen.Prob(t, 2, "retype") {
			return gen.Value(t, d)
		}
		l := gen.L{}
		for i, n := 0, gen.Int(t, 0, len(x)+1, "len"); i < n; i++ {
			if i < len(x) {
				l = append(l, derive(t, x[i], d-1))
			} else {
				l = append(l, gen.Value(t, d-1))
			}
		}
		return l
	}
	if gen.Bool(t, "same") {
		return v
	}
	return gen.Value(t, d)
}

// TestPatch: patches against the reference, idempotence, purity.
func TestPatch(t *testing.T) {
	hx.Check(t, "random objects of depth up to 4 and patches derived from them (fields kept, changed, nulled, added, retyped, lists shorter and longer) or independent; the patched object must equal the reference merge patch, patching again changes nothing, the patch stays as it was, also when the result is overwritten, and patches of disjoint top-level fields commute; non-trivial: the patch changes the object and removes something or reaches depth 2",
		hx.Scale(60000, 2000000), func(c *hx.Case) {
			o := gen.Doc(c.T, 4)
			var m gen.M
			if gen.Prob(c.T, 13, "derived") {
				m, _ = derive(c.T, o, 3).(gen.M)
			}
			if m == nil {
				m = gen.Doc(c.T, 3)
			}
			c.Step("object %s patch %s", ref.JSON(o), ref.JSON(m))
			mjs, ojs := ref.JSON(m), ref.JSON(o)
			want := ref.Patch(o, m)
			obj := gen.Obj(ref.CopyMap(o))
			apply := func(ob object.Object, p gen.M) {
				var err error
				c.NoPanic("Patch", func() { err = object.Patch(ob, p) })
				if err != nil {
					c.Failf("error: %v", err)
				}
			}
			apply(obj, m)
			if got := ref.JSON(obj.Object); got != ref.JSON(want) {
				c.Failf("gives %s, want %s", got, ref.JSON(want))
			}
			if ref.JSON(m) != mjs {
				c.Failf("the patch is changed to %s", ref.JSON(m))
			}
			obj2 := gen.Obj(ref.CopyMap(obj.Object))
			apply(obj2, m)
			if got := ref.JSON(obj2.Object); got != ref.JSON(want) {
				c.Failf("patching again gives %s, want %s", got, ref.JSON(want))
			}
			// the same patch value used on another object, then overwritten results
			obj3 := gen.Obj(ref.CopyMap(o))
			apply(obj3, m)
			gen.Scribble(obj3.Object)
			if ref.JSON(m) != mjs || ref.JSON(obj.Object) != ref.JSON(want) {
				c.Failf("overwriting the result changes the patch or another result")
			}
			gen.Scribble(m)
			if ref.JSON(obj.Object) != ref.JSON(want) {
				c.Failf("overwriting the patch changes the result")
			}
			c.NonTrivial(ojs != ref.JSON(want) && len(mjs) > 20)
			c.ClassIf(hasNull(want), "null in result")
		})
}

// TestSplit: a patch applied field by field gives the same.
func TestSplit(t *testing.T) {
	hx.Check(t, "a patch applied in one go, field by field in a random order, and the empty patch; non-trivial: at least two fields",
		hx.Scale(15000, 300000), func(c *hx.Case) {
			o := gen.Doc(c.T, 3)
			m, ok := derive(c.T, o, 3).(gen.M)
			if !ok {
				m = gen.Doc(c.T, 2)
			}
			c.Step("object %s patch %s", ref.JSON(o), ref.JSON(m))
			a, b := gen.Obj(ref.CopyMap(o)), gen.Obj(ref.CopyMap(o))
			if err := object.Patch(b, gen.M{}); err != nil || ref.JSON(b.Object) != ref.JSON(o) {
				c.Failf("the empty patch gives %s, %v", ref.JSON(b.Object), err)
			}
			if err := object.Patch(a, ref.CopyMap(m)); err != nil {
				c.Failf("%v", err)
			}
			rest := append([]string{}, gen.FieldNames...)
			for len(rest) > 0 {
				i := gen.Int(c.T, 0, len(rest)-1, "next")
				k := rest[i]
				rest = append(rest[:i], rest[i+1:]...)
				if v, ok := m[k]; ok {
					if err := object.Patch(b, gen.M{k: v}); err != nil {
						c.Failf("%v", err)
					}
				}
			}
			if ref.JSON(a.Object) != ref.JSON(b.Object) {
				c.Failf("in one go %s, field by field %s", ref.JSON(a.Object), ref.JSON(b.Object))
			}
			c.NonTrivial(len(m) > 1)
		})
}

// TestCopies: deep copies are equal and independent.
func TestCopies(t *testing.T) {
	hx.Check(t, "deep copies of random values by DeepCopyAny, DeepCopy, DeepCopyInto and SetContent, overwritten in depth; every case with a non-empty container is non-trivial",
		hx.Scale(15000, 300000), func(c *hx.Case) {
			o := gen.Doc(c.T, 4)
			o["apiVersion"], o["kind"] = "v1", "Thing"
			js := ref.JSON(o)
			c.Step("%s", js)
			obj := gen.Obj(o)
			into := object.New()
			object.DeepCopyInto(obj, into)
			set := gen.Obj(gen.M{"apiVersion": "v1", "kind": "Thing"})
			content := ref.CopyMap(o)
			delete(content, "metadata")
			cjs := ref.JSON(content)
			object.SetContent(set, content)
			copies := []any{object.DeepCopyAny(o), object.DeepCopy(obj).Object, into.Object}
			for i, x := range copies {
				if ref.JSON(x) != js {
					c.Failf("copy %d is %s", i, ref.JSON(x))
				}
			}
			for i, x := range copies {
				gen.Scribble(x)
				if ref.JSON(o) != js {
					c.Failf("overwriting copy %d changes the original to %s", i, ref.JSON(o))
				}
			}
			gen.Scribble(set.Object)
			if ref.JSON(content) != cjs {
				c.Failf("overwriting an object changes the content it was given")
			}
			c.NonTrivial(len(o) > 2)
		})
}

func TestRegressions(t *testing.T) {
	hx.Regress(t, "nulls in new maps", func() string {
		o := gen.Obj(gen.M{"k": int64(1)})
		if err := object.Patch(o, gen.M{"a": gen.M{"b": nil, "c": int64(1)}}); err != nil {
			return err.Error()
		}
		if s := ref.JSON(o.Object); s != `{"a":{"c":1},"k":1}` {
			return s
		}
		return ""
	})
}
