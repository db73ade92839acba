package c04

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/dbsp"
)

// ---- an independent model of weighted multisets and operators ----

type elem struct {
	doc gen.M
	w   int
}

type zset map[string]elem

func (z zset) add(d gen.M, w int) {
	k := ref.Canon(d)
	n := z[k].w + w
	if n == 0 {
		delete(z, k)
		return
	}
	z[k] = elem{doc: ref.CopyMap(d), w: n}
}

func (z zset) plus(o zset) {
	for _, e := range o {
		z.add(e.doc, e.w)
	}
}

func (z zset) clone() zset {
	r := zset{}
	r.plus(z)
	return r
}

func (z zset) String() string {
	s := []string{}
	for k, e := range z {
		s = append(s, fmt.Sprintf("%d x %s", e.w, k))
	}
	sort.Strings(s)
	return "{" + strings.Join(s, ", ") + "}"
}

func (z zset) real() *dbsp.DocumentZSet {
	r := dbsp.NewDocumentZSet()
	for _, e := range z {
		if err := r.AddDocumentMutate(ref.CopyMap(e.doc), e.w); err != nil {
			panic(err)
		}
	}
	return r
}

func fromReal(c *hx.Case, z *dbsp.DocumentZSet) zset {
	l, err := z.List()
	if err != nil {
		c.Failf("List: %v", err)
	}
	r := zset{}
	for _, e := range l {
		r.add(e.Document, e.Multiplicity)
	}
	return r
}

// ---- operators: a description, the model and the real thing ----

type op struct {
	name  string
	model func(zset) zset
	make  func() dbsp.Operator
	nonli bool // needs non-negative collections
	incr  bool // only for incremental graphs
	ev    dbsp.Evaluator
}

type evalFn struct {
	name string
	f    func(gen.M) []gen.M
}

func (e evalFn) Evaluate(d dbsp.Document) ([]dbsp.Document, error) { return e.f(d), nil }
func (e evalFn) String() string                                    { return e.name }

type extractFn struct {
	name string
	f    func(gen.M) any
}

func (e extractFn) Extract(d dbsp.Document) (any, error) { return e.f(d), nil }
func (e extractFn) String() string                       { return e.name }

type transFn struct {
	name string
	f    func(gen.M, any) gen.M
}

func (e transFn) Transform(d dbsp.Document, v any) (dbsp.Document, error) { return e.f(d, v), nil }
func (e transFn) String() string                                          { return e.name }

func num(d gen.M, k string) int64 {
	n, _ := d[k].(int64)
	return n
}

func pointwise(f func(gen.M) []gen.M) func(zset) zset {
	return func(in zset) zset {
		r := zset{}
		for _, e := range in {
			for _, d := range f(ref.CopyMap(e.doc)) {
				r.add(d, e.w)
			}
		}
		return r
	}
}

func project(name string, mutating bool, f func(gen.M) gen.M) op {
	real := func(d gen.M) []gen.M {
		if mutating {
			// in place, like an evaluator that fills in fields of the document it is given
			n := f(ref.CopyMap(d))
			for k := range d {
				delete(d, k)
			}
			for k, v := range n {
				d[k] = v
			}
			return []gen.M{d}
		}
		return []gen.M{f(ref.CopyMap(d))}
	}
	return op{name: name, model: pointwise(func(d gen.M) []gen.M { return []gen.M{f(d)} }),
		ev: evalFn{name, real}, make: func() dbsp.Operator { return dbsp.NewProjection(evalFn{name, real}) }}
}

func selection(name string, f func(gen.M) bool) op {
	g := func(d gen.M) []gen.M {
		if f(d) {
			return []gen.M{d}
		}
		return []gen.M{}
	}
	return op{name: name, model: pointwise(g), make: func() dbsp.Operator { return dbsp.NewSelection(evalFn{name, g}) }}
}

func drawOp(t gen.T, nonlinear, incremental bool) op {
	k := int64(gen.Int(t, 0, 2, "k"))
	f := gen.Pick(t, "f", "a", "b")
	mut := gen.Bool(t, "mut")
	n := 9
	if nonlinear {
		n = 11
	}
	switch gen.Int(t, 0, n, "op") {
	case 0, 1:
		return selection(fmt.Sprintf("sel(%s>=%d)", f, k), func(d gen.M) bool { return num(d, f) >= k })
	case 2:
		return selection(fmt.Sprintf("sel(%s!=%d)", f, k), func(d gen.M) bool { return num(d, f) != k })
	case 3:
		return project(fmt.Sprintf("proj(%s:=%d)", f, k), mut, func(d gen.M) gen.M { d[f] = k; return d })
	case 4:
		return project("proj(a:=a+b)", mut, func(d gen.M) gen.M { d["a"] = num(d, "a") + num(d, "b"); return d })
	case 5:
		return project("proj(drop l)", mut, func(d gen.M) gen.M { delete(d, "l"); return d })
	case 6:
		return project("proj(swap)", mut, func(d gen.M) gen.M { d["a"], d["b"] = num(d, "b"), num(d, "a"); return d })
	case 7, 8:
		if incremental && gen.Bool(t, "struct") {
			id := func(z zset) zset { return z.clone() }
			if gen.Bool(t, "which") {
				return op{name: "I", incr: true, model: id, make: func() dbsp.Operator { return dbsp.NewIntegrator() }}
			}
			return op{name: "D", incr: true, model: id, make: func() dbsp.Operator { return dbsp.NewDifferentiator() }}
		}
		return op{name: "unwind(l)", model: pointwise(func(d gen.M) []gen.M {
			l, ok := d["l"].([]any)
			if !ok {
				return nil
			}
			r := []gen.M{}
			for _, x := range l {
				n := ref.CopyMap(d)
				n["l"] = ref.Copy(x)
				r = append(r, n)
			}
			return r
		}), make: func() dbsp.Operator {
			return dbsp.NewUnwind(extractFn{"l", func(d gen.M) any { return d["l"] }},
				transFn{"l:=", func(d gen.M, v any) gen.M { d["l"] = v; return d }})
		}}
	case 9:
		// a filtering evaluator that mirrors what @select with a default does
		return selection("sel(has l)", func(d gen.M) bool { _, ok := d["l"].([]any); return ok })
	case 10:
		return op{name: "distinct", nonli: true, model: func(in zset) zset {
			r := zset{}
			for _, e := range in {
				if e.w > 0 {
					r.add(e.doc, 1)
				}
			}
			return r
		}, make: func() dbsp.Operator { return dbsp.NewDistinct() }}
	default:
		key, val := f, "l"
		return op{name: "gather(" + key + ")", nonli: true, model: func(in zset) zset {
			groups := map[string][]any{}
			docs := map[string]any{}
			for _, e := range in {
				kv, v := e.doc[key], e.doc[val]
				if kv == nil || v == nil {
					continue
				}
				ks := ref.Canon(kv)
				docs[ks] = kv
				for i := 0; i < e.w; i++ {
					groups[ks] = append(groups[ks], v)
				}
			}
			r := zset{}
			for ks, vs := range groups {
				r.add(aggregate(docs[ks], vs, key, val), 1)
			}
			return r
		}, make: func() dbsp.Operator {
			return dbsp.NewGather(extractFn{key, func(d gen.M) any { return d[key] }},
				extractFn{val, func(d gen.M) any { return d[val] }},
				transFn{"aggregate", func(d gen.M, v any) gen.M {
					a := v.(*dbsp.AggregateInput)
					return aggregate(a.Key, a.Values, key, val)
				}})
		}}
	}
}

// aggregate makes a result independent of the order of the values and of the representative.
func aggregate(k any, vs []any, key, val string) gen.M {
	l := gen.L{}
	for _, v := range vs {
		l = append(l, ref.Copy(v))
	}
	sort.Slice(l, func(i, j int) bool { return ref.Canon(l[i]) < ref.Canon(l[j]) })
	return gen.M{key: ref.Copy(k), val: l, "n": int64(len(l))}
}

type join struct {
	name   string
	inputs []string
	cond   func(gen.M) bool
	binary bool
}

func (j join) model(ins []zset) zset {
	r := zset{}
	var rec func(i int, acc gen.M, w int)
	rec = func(i int, acc gen.M, w int) {
		if i == len(ins) {
			if j.cond(acc) {
				r.add(acc, w)
			}
			return
		}
		for _, e := range ins[i] {
			acc[j.inputs[i]] = ref.CopyMap(e.doc)
			rec(i+1, acc, w*e.w)
		}
		delete(acc, j.inputs[i])
	}
	rec(0, gen.M{}, 1)
	return r
}

func (j join) make(incremental bool) dbsp.Operator {
	ev := evalFn{j.name, func(d gen.M) []gen.M {
		if j.cond(d) {
			return []gen.M{d}
		}
		return []gen.M{}
	}}
	switch {
	case j.binary && incremental:
		return dbsp.NewIncrementalBinaryJoin(ev, j.inputs)
	case j.binary:
		return dbsp.NewBinaryJoin(ev, j.inputs)
	case incremental:
		return dbsp.NewIncrementalJoin(ev, j.inputs)
	default:
		return dbsp.NewJoin(ev, j.inputs)
	}
}

type query struct {
	inputs []string
	join   *join
	flat   op // turns the joined document into a flat one
	chain  []op
	nonli  bool
	incr   bool
}

func (q query) String() string {
	s := []string{}
	if q.join != nil {
		s = append(s, q.join.name, "flatten")
	}
	for _, o := range q.chain {
		s = append(s, o.name)
	}
	return strings.Join(q.inputs, ",") + " -> " + strings.Join(s, " -> ")
}

func (q query) model(ins []zset) zset {
	var cur zset
	if q.join != nil {
		cur = q.flat.model(q.join.model(ins))
	} else {
		cur = ins[0].clone()
	}
	for _, o := range q.chain {
		cur = o.model(cur)
	}
	return cur
}

func (q query) graph(incrementalJoin bool) *dbsp.ChainGraph {
	g := dbsp.NewChainGraph()
	for _, i := range q.inputs {
		g.AddInput(dbsp.NewInput(i))
	}
	if q.join != nil {
		g.SetJoin(q.join.make(incrementalJoin))
		g.AddToChain(q.flat.make())
	}
	for _, o := range q.chain {
		g.AddToChain(o.make())
	}
	return g
}

func drawQuery(c *hx.Case, nonlinear, incremental bool) query {
	t := c.T
	n := gen.Int(t, 1, 3, "ninputs")
	q := query{inputs: []string{"X", "Y", "Z"}[:n]}
	if n > 1 || gen.Prob(t, 3, "selfjoin") {
		k := int64(gen.Int(t, 0, 3, "jk"))
		j := join{inputs: q.inputs}
		switch gen.Int(t, 0, 3, "cond") {
		case 0:
			j.name, j.cond = "join(true)", func(gen.M) bool { return true }
		case 1:
			j.name = "join(=a)"
			j.cond = func(d gen.M) bool {
				for _, i := range q.inputs {
					if num(d[i].(gen.M), "a") != num(d[q.inputs[0]].(gen.M), "a") {
						return false
					}
				}
				return true
			}
		default:
			j.name = fmt.Sprintf("join(sum b>=%d)", k)
			j.cond = func(d gen.M) bool {
				s := int64(0)
				for _, i := range q.inputs {
					s += num(d[i].(gen.M), "b")
				}
				return s >= k
			}
		}
		j.binary = n == 2 && gen.Bool(t, "binary")
		if j.binary {
			j.name = "binary " + j.name
		}
		q.join = &j
		q.flat = project("flatten", gen.Bool(t, "mut"), func(d gen.M) gen.M {
			r := gen.M{"a": int64(0), "b": num(d[q.inputs[0]].(gen.M), "b")}
			for _, i := range q.inputs {
				r["a"] = r["a"].(int64)*4 + num(d[i].(gen.M), "a")
				if l, ok := d[i].(gen.M)["l"]; ok {
					r["l"] = l
				}
			}
			return r
		})
	}
	for i, m := 0, gen.Int(t, 0, 6, "chain"); i < m; i++ {
		o := drawOp(t, nonlinear, incremental)
		if o.incr {
			// an I or D alone changes the meaning; in a pair they cancel out
			p := op{name: "D", incr: true, model: o.model, make: func() dbsp.Operator { return dbsp.NewDifferentiator() }}
			if o.name == "D" {
				p.name, p.make = "I", func() dbsp.Operator { return dbsp.NewIntegrator() }
			}
			q.chain = append(q.chain, o, p)
			q.incr = true
			continue
		}
		q.nonli = q.nonli || o.nonli
		q.chain = append(q.chain, o)
	}
	if q.join == nil && len(q.chain) == 0 {
		q.chain = append(q.chain, drawOp(t, false, false))
	}
	return q
}

func drawDoc(t gen.T) gen.M {
	d := gen.M{"a": int64(gen.Int(t, 0, 2, "a")), "b": int64(gen.Int(t, 0, 2, "b"))}
	if gen.Bool(t, "has-l") {
		l := gen.L{}
		for i, n := 0, gen.Int(t, 0, 3, "ln"); i < n; i++ {
			l = append(l, int64(gen.Int(t, 0, 2, "li")))
		}
		d["l"] = l
	}
	return d
}

// drawDelta draws an input delta; if nonneg is set, the state never gets negative.
func drawDelta(t gen.T, state zset, nonneg bool) zset {
	r := zset{}
	for i, n := 0, gen.Int(t, 0, 3, "nd"); i < n; i++ {
		var d gen.M
		if len(state) > 0 && gen.Bool(t, "known") {
			ks := []string{}
			for k := range state {
				ks = append(ks, k)
			}
			sort.Strings(ks)
			d = ref.CopyMap(state[gen.Pick(t, "which", ks...)].doc)
		} else {
			d = drawDoc(t)
		}
		w := gen.Pick(t, "w", 1, 1, 1, 2, -1, -1, -2)
		k := ref.Canon(d)
		if nonneg && state[k].w+r[k].w+w < 0 {
			w = 1
		}
		r.add(d, w)
	}
	return r
}

type exec interface {
	Process(dbsp.DeltaZSet) (*dbsp.DocumentZSet, error)
}

func run(c *hx.Case, what string, e exec, q query, ins []zset) zset {
	m := dbsp.DeltaZSet{}
	was := []string{}
	for i, n := range q.inputs {
		m[n] = ins[i].real()
		was = append(was, ins[i].String())
	}
	out, err := e.Process(m)
	if err != nil {
		c.Failf("%s: %v", what, err)
	}
	r := fromReal(c, out)
	for i, n := range q.inputs {
		if now := fromReal(c, m[n]).String(); now != was[i] {
			c.Failf("%s: input %s changed from %s to %s", what, n, was[i], now)
		}
	}
	return r
}

func TestModes(t *testing.T) {
	hx.Check(t, "random operator graph (0-3 input join, up to 6 of select, project, in-place project, unwind, distinct, gather, I/D pairs) over a random sequence of 1-8 weighted input deltas; optimized, converted, re-batched and reset incremental executions and snapshot executions are compared with a model of the query after every delta; non-trivial: a non-empty result and at least two non-empty deltas",
		hx.Scale(9000, 250000), func(c *hx.Case) {
			nonlinear := gen.Bool(c.T, "nonlinear")
			q := drawQuery(c, nonlinear, gen.Prob(c.T, 4, "structural"))
			c.Step("query %s", q)
			mk := func(what string, g *dbsp.ChainGraph) *dbsp.Executor {
				e, err := dbsp.NewExecutor(g, hx.Log())
				if err != nil {
					c.Failf("%s: %v", what, err)
				}
				return e
			}
			opt := func(what string, g *dbsp.ChainGraph) *dbsp.ChainGraph {
				if err := dbsp.NewLinearChainRewriteEngine().Optimize(g); err != nil {
					c.Failf("%s: %v", what, err)
				}
				return g
			}
			conv := func(what string, f func(*dbsp.ChainGraph) (*dbsp.ChainGraph, error), g *dbsp.ChainGraph) *dbsp.ChainGraph {
				r, err := f(g)
				if err != nil {
					c.Failf("%s: %v", what, err)
				}
				return r
			}
			incr := map[string]*dbsp.Executor{
				"optimized":               mk("optimized", opt("optimized", q.graph(false))),
				"optimized incremental":   mk("optimized incremental", opt("optimized incremental", q.graph(true))),
				"converted and optimized": mk("converted", opt("converted", conv("converted", dbsp.ToIncrementalGraph, q.graph(false)))),
			}
			if !q.nonli {
				incr["unoptimized incremental"] = mk("unoptimized", q.graph(true))
				incr["converted unoptimized"] = mk("converted unoptimized", conv("converted", dbsp.ToIncrementalGraph, q.graph(false)))
			}
			twice := opt("optimized twice", opt("optimized twice", q.graph(false)))
			incr["optimized twice"] = mk("optimized twice", twice)
			names := []string{}
			for n := range incr {
				names = append(names, n)
			}
			sort.Strings(names)
			snap := map[string]exec{}
			if !q.incr {
				for n, g := range map[string]*dbsp.ChainGraph{
					"snapshot":                conv("snapshot", dbsp.ToSnapshotGraph, q.graph(false)),
					"snapshot of incremental": conv("snapshot", dbsp.ToSnapshotGraph, q.graph(true)),
					"snapshot round trip":     conv("snapshot", dbsp.ToSnapshotGraph, conv("incremental", dbsp.ToIncrementalGraph, q.graph(false))),
				} {
					e, err := dbsp.NewSnapshotExecutor(g, hx.Log())
					if err != nil {
						c.Failf("%s: %v", n, err)
					}
					snap[n] = e
				}
				if q.nonli == false {
					// without non-linear operators the optimized graph also has a snapshot form
					e, err := dbsp.NewSnapshotExecutor(conv("snapshot of optimized", dbsp.ToSnapshotGraph, opt("x", q.graph(false))), hx.Log())
					if err != nil {
						c.Failf("%v", err)
					}
					snap["snapshot of optimized"] = e
				}
				snap["plain"] = mk("plain", q.graph(false))
				// the rules that do not change the mode, each on its own and both
				distinct, fusion := &dbsp.DistinctOptimizationRule{}, &dbsp.LinearOperatorFusionRule{}
				for what, rs := range map[string][]dbsp.LinearChainRule{"distinct rule": {distinct}, "fusion rule": {fusion}, "distinct and fusion rules": {distinct, fusion}} {
					g := q.graph(false)
					for _, r := range rs {
						for i := 0; i < 8 && r.CanApply(g); i++ {
							if err := r.Apply(g); err != nil {
								c.Failf("%s: %v", what, err)
							}
						}
					}
					snap[what] = mk(what, g)
				}
			}
			states := make([]zset, len(q.inputs))
			for i := range states {
				states[i] = zset{}
			}
			acc := map[string]zset{}
			for _, n := range names {
				acc[n] = zset{}
			}
			history := [][]zset{}
			nd, nonempty := 0, false
			check := func(when string) {
				want := q.model(states)
				nonempty = nonempty || len(want) > 0
				for _, n := range names {
					if got := acc[n].String(); got != want.String() {
						c.Failf("%s: accumulated output of the %s graph\n  want %s\n  got  %s", when, n, want, got)
					}
				}
				sn := []string{}
				for n := range snap {
					sn = append(sn, n)
				}
				sort.Strings(sn)
				for _, n := range sn {
					if got := run(c, n, snap[n], q, states).String(); got != want.String() {
						c.Failf("%s: output of the %s graph\n  want %s\n  got  %s", when, n, want, got)
					}
				}
			}
			steps := gen.Int(c.T, 1, 8, "steps")
			for s := 0; s < steps; s++ {
				ds := make([]zset, len(q.inputs))
				empty := true
				for i := range ds {
					ds[i] = zset{}
					if gen.Bool(c.T, "changed") {
						ds[i] = drawDelta(c.T, states[i], q.nonli)
					}
					empty = empty && len(ds[i]) == 0
				}
				if !empty {
					nd++
				}
				c.Step("delta %v", ds)
				history = append(history, ds)
				for _, n := range names {
					acc[n].plus(run(c, n, incr[n], q, ds))
				}
				for i := range ds {
					states[i].plus(ds[i])
				}
				check(fmt.Sprintf("step %d", s))
			}
			// a different batching: everything at once, or one document at a time
			e := incr[gen.Pick(c.T, "resetwho", names...)]
			e.Reset()
			if gen.Bool(c.T, "batch") {
				c.Step("reset, everything in one batch")
				if got, want := run(c, "single batch after reset", e, q, states).String(), q.model(states).String(); got != want {
					c.Failf("after reset, everything in one batch\n  want %s\n  got  %s", want, got)
				}
			} else {
				c.Step("reset, one document at a time")
				cur := make([]zset, len(q.inputs))
				for i := range cur {
					cur[i] = zset{}
				}
				out := zset{}
				for _, ds := range history {
					for i := range ds {
						// additions first: the state stays non-negative
						ks := []string{}
						for k := range ds[i] {
							ks = append(ks, k)
						}
						sort.Slice(ks, func(x, y int) bool {
							if (ds[i][ks[x]].w > 0) != (ds[i][ks[y]].w > 0) {
								return ds[i][ks[x]].w > 0
							}
							return ks[x] < ks[y]
						})
						for _, k := range ks {
							one := make([]zset, len(q.inputs))
							for j := range one {
								one[j] = zset{}
							}
							one[i].add(ds[i][k].doc, ds[i][k].w)
							out.plus(run(c, "split", e, q, one))
						}
					}
				}
				if got, want := out.String(), q.model(states).String(); got != want {
					c.Failf("after reset, one document at a time\n  want %s\n  got  %s", want, got)
				}
			}
			c.ClassIf(q.nonli, "non-linear")
			c.ClassIf(q.join != nil, "join")
			c.ClassIf(q.incr, "I/D pair")
			c.NonTrivial(nonempty && nd >= 2)
		})
}

// TestOperators: the stateful stream operators and single operators outside of graphs.
func TestOperators(t *testing.T) {
	hx.Check(t, "random stream of 1-8 Z-sets through integrator, differentiator, delay, sums, fused operators and their resets, compared with the stream definitions; non-trivial: at least three non-empty elements",
		hx.Scale(4000, 100000), func(c *hx.Case) {
			I, D, Z := dbsp.NewIntegrator(), dbsp.NewDifferentiator(), dbsp.NewDelay()
			sum, prev, nonempty := zset{}, zset{}, 0
			neg := func(z zset) zset {
				r := zset{}
				for _, e := range z {
					r.add(e.doc, -e.w)
				}
				return r
			}
			steps := gen.Int(c.T, 1, 8, "steps")
			proc := func(o interface {
				Process(...*dbsp.DocumentZSet) (*dbsp.DocumentZSet, error)
			}, ins ...zset) zset {
				rs := []*dbsp.DocumentZSet{}
				for _, i := range ins {
					rs = append(rs, i.real())
				}
				out, err := o.Process(rs...)
				if err != nil {
					c.Failf("%T: %v", o, err)
				}
				r := fromReal(c, out)
				for i := range ins {
					if now := fromReal(c, rs[i]).String(); now != ins[i].String() {
						c.Failf("%T changes its input from %s to %s", o, ins[i], now)
					}
				}
				// the result belongs to the caller
				if err := out.AddDocumentMutate(gen.M{"scribble": true}, 5); err != nil {
					c.Failf("%v", err)
				}
				return r
			}
			eq := func(what string, got, want zset) {
				if got.String() != want.String() {
					c.Failf("%s\n  want %s\n  got  %s", what, want, got)
				}
			}
			p1, p2 := drawOp1(c.T), drawOp1(c.T)
			s1 := selection("sel", func(d gen.M) bool { return num(d, "a") >= 1 })
			for i := 0; i < steps; i++ {
				if gen.Prob(c.T, 2, "reset") {
					c.Step("reset")
					I.Reset()
					D.Reset()
					Z.Reset()
					sum, prev = zset{}, zset{}
				}
				x := drawDelta(c.T, sum, false)
				c.Step("element %s", x)
				if len(x) > 0 {
					nonempty++
				}
				sum.plus(x)
				eq("integrator", proc(I, x), sum)
				d := x.clone()
				d.plus(neg(prev))
				eq("differentiator", proc(D, x), d)
				eq("delay", proc(Z, x), prev)
				both := x.clone()
				both.plus(sum)
				eq("sum", proc(dbsp.NewAdd(), x, sum), both)
				diff := x.clone()
				diff.plus(neg(sum))
				eq("difference", proc(dbsp.NewSubtract(), x, sum), diff)
				eq("negation", proc(dbsp.NewNegate(), x), neg(x))
				eq("constant", proc(dbsp.NewConstant(x.real(), "c")), x)
				// fused operators equal their parts
				eq("project then select", proc(dbsp.NewProjectThenSelect(p1.ev, s1ev), x), s1.model(p1.o.model(x)))
				eq("select then projections", proc(dbsp.NewSelectThenProjections(s1ev, []dbsp.Evaluator{p1.ev, p2.ev}), x), p2.o.model(p1.o.model(s1.model(x))))
				eq("projections", proc(dbsp.NewSelectThenProjections(nil, []dbsp.Evaluator{p2.ev, p1.ev}), x), p1.o.model(p2.o.model(x)))
				fo, err := dbsp.NewFusedOp([]dbsp.Operator{s1.make(), p1.o.make(), p2.o.make()}, "f")
				if err != nil {
					c.Failf("%v", err)
				}
				eq("fused chain", proc(fo, x), p2.o.model(p1.o.model(s1.model(x))))
				prev = x
			}
			c.NonTrivial(nonempty >= 3)
		})
}

type proj struct {
	o  op
	ev dbsp.Evaluator
}

var s1ev = evalFn{"sel", func(d gen.M) []gen.M {
	if num(d, "a") >= 1 {
		return []gen.M{d}
	}
	return nil
}}

func drawOp1(t gen.T) proj {
	k := int64(gen.Int(t, 0, 3, "pk"))
	f := func(d gen.M) gen.M { d["a"] = num(d, "b") + k; return d }
	if gen.Bool(t, "pf") {
		f = func(d gen.M) gen.M { d["b"] = num(d, "a") * k; delete(d, "l"); return d }
	}
	o := project("p", gen.Bool(t, "mut"), f)
	return proj{o: o, ev: o.ev}
}
