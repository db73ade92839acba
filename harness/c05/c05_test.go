package c05

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/dbsp"
)

// model of a Z-set: canonical text -> weight, without zero weights.
type model map[string]int

func (m model) add(k string, n int) model {
	r := m.clone()
	r[k] += n
	if r[k] == 0 {
		delete(r, k)
	}
	return r
}

func (m model) clone() model {
	r := model{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func (m model) plus(o model, sign int) model {
	r := m.clone()
	for k, v := range o {
		r[k] += sign * v
		if r[k] == 0 {
			delete(r, k)
		}
	}
	return r
}

func (m model) String() string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	s := []string{}
	for _, k := range ks {
		s = append(s, fmt.Sprintf("%d x %s", m[k], k))
	}
	return "{" + strings.Join(s, ", ") + "}"
}

// doc draws a document from a small but structurally tricky space: equal documents come up often and
// different ones differ in little.
func doc(t gen.T) gen.M {
	m := gen.M{}
	if gen.Bool(t, "has-a") {
		m["a"] = leaf(t, 2)
	}
	if gen.Bool(t, "has-b") {
		m["b"] = leaf(t, 1)
	}
	if gen.Prob(t, 4, "has-c") {
		m["c"] = leaf(t, 2)
	}
	return m
}

func leaf(t gen.T, depth int) any {
	switch gen.Int(t, 0, 10, "leaf") {
	case 0:
		return nil
	case 1:
		return gen.Pick(t, "s", "1", "", "x", "null", "\xff", "\xfe", "\ufffd", "\xff\xff")
	case 2:
		return gen.Bool(t, "bool")
	case 3:
		return 1.5
	case 4, 5:
		return int64(gen.Int(t, 0, 2, "i"))
	case 6, 7:
		if depth > 0 {
			n := gen.Int(t, 0, 2, "n")
			l := gen.L{}
			for i := 0; i < n; i++ {
				l = append(l, leaf(t, depth-1))
			}
			return l
		}
		return gen.L{}
	default:
		if depth > 0 {
			m := gen.M{}
			for _, k := range []string{"x", "y"} {
				if gen.Bool(t, "f") {
					m[k] = leaf(t, depth-1)
				}
			}
			return m
		}
		return gen.M{}
	}
}

func verify(c *hx.Case, what string, z *dbsp.DocumentZSet, m model, probes []gen.M) {
	got := model{}
	entries, err := z.List()
	if err != nil {
		c.Failf("%s: List: %v", what, err)
	}
	for _, e := range entries {
		k := ref.Canon(e.Document)
		if _, dup := got[k]; dup {
			c.Failf("%s: List has %s twice", what, k)
		}
		if e.Multiplicity == 0 {
			c.Failf("%s: List has %s with weight zero", what, k)
		}
		got[k] = e.Multiplicity
		gen.Scribble(e.Document)
	}
	if got.String() != m.String() {
		c.Failf("%s: content differs\n  want %s\n  got  %s", what, m, got)
	}
	pos, tot, uniq := 0, 0, 0
	for _, n := range m {
		if n > 0 {
			pos += n
			tot += n
			uniq++
		} else {
			tot -= n
		}
	}
	if z.Size() != pos || z.TotalSize() != tot || z.UniqueCount() != uniq || z.IsZero() != (len(m) == 0) {
		c.Failf("%s: Size %d TotalSize %d UniqueCount %d IsZero %v for %s", what, z.Size(), z.TotalSize(), z.UniqueCount(), z.IsZero(), m)
	}
	docs, err := z.GetDocuments()
	if err != nil {
		c.Failf("%s: GetDocuments: %v", what, err)
	}
	dm := map[string]int{}
	for _, d := range docs {
		dm[ref.Canon(d)]++
		gen.Scribble(d)
	}
	uds, err := z.GetUniqueDocuments()
	if err != nil {
		c.Failf("%s: GetUniqueDocuments: %v", what, err)
	}
	um := map[string]int{}
	for _, d := range uds {
		um[ref.Canon(d)]++
		gen.Scribble(d)
	}
	if len(uds) != uniq || len(docs) != pos {
		c.Failf("%s: %d documents, %d unique ones for %s", what, len(docs), len(uds), m)
	}
	for k, n := range m {
		if n > 0 && (dm[k] != n || um[k] != 1) {
			c.Failf("%s: document %s listed %d times (unique: %d), weight %d", what, k, dm[k], um[k], n)
		}
	}
	for _, p := range probes {
		n, err := z.GetMultiplicity(p)
		if err != nil || n != m[ref.Canon(p)] {
			c.Failf("%s: multiplicity of %s is %d (%v), want %d", what, ref.Canon(p), n, err, m[ref.Canon(p)])
		}
		in, err := z.Contains(p)
		if err != nil || in != (m[ref.Canon(p)] > 0) {
			c.Failf("%s: Contains(%s) is %v (%v), weight %d", what, ref.Canon(p), in, err, m[ref.Canon(p)])
		}
	}
}

func TestAlgebra(t *testing.T) {
	hx.Check(t, "a pool of four Z-sets under 1-25 random operations (insertion, sum, difference, distinct, unique, copies, singleton, from documents, negation), documents handed in and out are overwritten afterwards; after every operation all sets are compared with a map model through every observer; non-trivial: at least 3 set-level operations and a negative weight at some time",
		hx.Scale(12000, 300000), func(c *hx.Case) {
			const N = 4
			zs := make([]*dbsp.DocumentZSet, N)
			ms := make([]model, N)
			for i := range zs {
				zs[i], ms[i] = dbsp.NewDocumentZSet(), model{}
			}
			probes := []gen.M{}
			nops := gen.Int(c.T, 1, 25, "nops")
			setops, neg := 0, false
			for i := 0; i < nops; i++ {
				a, b, d := gen.Int(c.T, 0, N-1, "a"), gen.Int(c.T, 0, N-1, "b"), gen.Int(c.T, 0, N-1, "d")
				draw := func() gen.M {
					if len(probes) > 0 && gen.Bool(c.T, "old") {
						return ref.CopyMap(probes[gen.Int(c.T, 0, len(probes)-1, "which")])
					}
					x := doc(c.T)
					probes = append(probes, ref.CopyMap(x))
					return x
				}
				var z *dbsp.DocumentZSet
				var m model
				var err error
				op := gen.Int(c.T, 0, 13, "op")
				switch op {
				case 0, 1, 2, 3:
					x, n := draw(), gen.Int(c.T, -3, 3, "count")
					c.Step("z%d := z%d.AddDocument(%s, %d)", d, a, ref.Canon(x), n)
					k := ref.Canon(x)
					z, err = zs[a].AddDocument(x, n)
					gen.Scribble(x)
					m = ms[a].add(k, n)
				case 4, 5:
					x, n := draw(), gen.Int(c.T, -3, 3, "count")
					c.Step("z%d.AddDocumentMutate(%s, %d)", a, ref.Canon(x), n)
					err = zs[a].AddDocumentMutate(x, n)
					ms[a] = ms[a].add(ref.Canon(x), n)
					d, z, m = a, zs[a], ms[a]
				case 6:
					c.Step("z%d := z%d.Add(z%d)", d, a, b)
					z, err = zs[a].Add(zs[b])
					m = ms[a].plus(ms[b], 1)
					setops++
				case 7:
					c.Step("z%d := z%d.Subtract(z%d)", d, a, b)
					z, err = zs[a].Subtract(zs[b])
					m = ms[a].plus(ms[b], -1)
					setops++
				case 8:
					c.Step("z%d := z%d.Distinct()", d, a)
					z, err = zs[a].Distinct()
					m = model{}
					for k, n := range ms[a] {
						if n > 0 {
							m[k] = 1
						}
					}
					setops++
				case 9:
					c.Step("z%d := z%d.Unique()", d, a)
					z, err = zs[a].Unique()
					m = model{}
					for k, n := range ms[a] {
						m[k] = 1
						if n < 0 {
							m[k] = -1
						}
					}
					setops++
				case 10:
					c.Step("z%d := z%d.ShallowCopy()", d, a)
					z, m = zs[a].ShallowCopy(), ms[a].clone()
				case 11:
					c.Step("z%d := z%d.DeepCopy()", d, a)
					z, m = zs[a].DeepCopy(), ms[a].clone()
				case 12:
					n := gen.Int(c.T, 0, 4, "ndocs")
					docs := []dbsp.Document{}
					m = model{}
					for j := 0; j < n; j++ {
						x := draw()
						docs = append(docs, x)
						m = m.add(ref.Canon(x), 1)
					}
					c.Step("z%d := FromDocuments(%s)", d, ref.Canon(docs))
					if n == 1 {
						z, err = dbsp.SingletonZSet(docs[0])
					} else {
						z, err = dbsp.FromDocuments(docs)
					}
					for _, x := range docs {
						gen.Scribble(x)
					}
				case 13:
					c.Step("z%d := -z%d", d, a)
					z, err = dbsp.NewNegate().Process(zs[a])
					m = model{}.plus(ms[a], -1)
					setops++
				}
				if err != nil {
					c.Failf("operation failed: %v", err)
				}
				zs[d], ms[d] = z, m
				for _, n := range m {
					neg = neg || n < 0
				}
				for j := range zs {
					verify(c, fmt.Sprintf("z%d", j), zs[j], ms[j], probes)
				}
			}
			c.NonTrivial(setops >= 3 && neg)
		})
}

func weights(c *hx.Case, z *dbsp.DocumentZSet) string {
	m := model{}
	l, err := z.List()
	if err != nil {
		c.Failf("List: %v", err)
	}
	for _, e := range l {
		m[ref.Canon(e.Document)] = e.Multiplicity
	}
	return m.String()
}

// TestLaws: the group laws, independent of any model.
func TestLaws(t *testing.T) {
	hx.Check(t, "three random Z-sets with overlapping documents; commutativity, associativity, identity, inverse, distinct idempotence, cancellation; non-trivial: at least two of the sets share a document",
		hx.Scale(5000, 100000), func(c *hx.Case) {
			pool := []gen.M{}
			for i := 0; i < 4; i++ {
				pool = append(pool, doc(c.T))
			}
			used := map[string]int{}
			draw := func(name string) *dbsp.DocumentZSet {
				z := dbsp.NewDocumentZSet()
				n := gen.Int(c.T, 0, 4, "n")
				mine := map[string]bool{}
				for i := 0; i < n; i++ {
					x := pool[gen.Int(c.T, 0, 3, "p")]
					if err := z.AddDocumentMutate(ref.CopyMap(x), gen.Int(c.T, -2, 3, "w")); err != nil {
						c.Failf("AddDocumentMutate: %v", err)
					}
					mine[ref.Canon(x)] = true
				}
				for k := range mine {
					used[k]++
				}
				c.Step("%s = %s", name, weights(c, z))
				return z
			}
			x, y, z := draw("x"), draw("y"), draw("z")
			zero := dbsp.NewDocumentZSet()
			ok := func(r *dbsp.DocumentZSet, err error) *dbsp.DocumentZSet {
				if err != nil {
					c.Failf("operation failed: %v", err)
				}
				return r
			}
			same := func(law string, a, b *dbsp.DocumentZSet) {
				if wa, wb := weights(c, a), weights(c, b); wa != wb {
					c.Failf("%s violated: %s versus %s", law, wa, wb)
				}
			}
			same("x+y = y+x", ok(x.Add(y)), ok(y.Add(x)))
			same("(x+y)+z = x+(y+z)", ok(ok(x.Add(y)).Add(z)), ok(x.Add(ok(y.Add(z)))))
			same("x+0 = x", ok(x.Add(zero)), x)
			same("x-0 = x", ok(x.Subtract(zero)), x)
			same("x-x = 0", ok(x.Subtract(x)), zero)
			same("(x+y)-y = x", ok(ok(x.Add(y)).Subtract(y)), x)
			same("x-y = x+(0-y)", ok(x.Subtract(y)), ok(x.Add(ok(zero.Subtract(y)))))
			same("distinct(distinct x) = distinct x", ok(ok(x.Distinct()).Distinct()), ok(x.Distinct()))
			same("distinct(x) = distinct(x+distinct(x))", ok(x.Distinct()), func() *dbsp.DocumentZSet {
				d := ok(x.Distinct())
				return ok(ok(x.Add(d)).Distinct())
			}())
			overlap := false
			for _, n := range used {
				overlap = overlap || n > 1
			}
			c.NonTrivial(overlap)
		})
}

// TestIdentity: two documents are the same element exactly when they are structurally equal.
func TestIdentity(t *testing.T) {
	hx.Check(t, "pairs of random documents, a third of them equal copies, a third with one small change; non-trivial: non-empty documents",
		hx.Scale(8000, 200000), func(c *hx.Case) {
			a := doc(c.T)
			if gen.Bool(c.T, "deep") {
				a = gen.Doc(c.T, 3)
			}
			b := ref.CopyMap(a)
			switch gen.Int(c.T, 0, 2, "rel") {
			case 0:
			case 1:
				k := gen.Pick(c.T, "k", "a", "b", "x")
				b[k] = leaf(c.T, 1)
			default:
				b = doc(c.T)
			}
			c.Step("%s versus %s", ref.Canon(a), ref.Canon(b))
			want := ref.Canon(a) == ref.Canon(b)
			got, err := dbsp.DeepEqual(a, b)
			if err != nil || got != want {
				c.Failf("DeepEqual is %v (%v), want %v", got, err, want)
			}
			z := dbsp.NewDocumentZSet()
			for _, x := range []gen.M{a, b} {
				if err := z.AddDocumentMutate(x, 1); err != nil {
					c.Failf("AddDocumentMutate: %v", err)
				}
			}
			n := 2
			if want {
				n = 1
			}
			if z.UniqueCount() != n {
				c.Failf("%d elements, want %d", z.UniqueCount(), n)
			}
			cp := dbsp.DeepCopyDocument(a)
			if ref.Canon(cp) != ref.Canon(a) {
				c.Failf("deep copy is %s", ref.Canon(cp))
			}
			before := ref.Canon(a)
			gen.Scribble(cp)
			if ref.Canon(a) != before {
				c.Failf("deep copy shares content with its original")
			}
			c.ClassIf(want, "equal")
			c.NonTrivial(len(a) > 0 && len(b) > 0)
		})
}
