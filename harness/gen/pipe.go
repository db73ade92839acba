package gen

import (
	"fmt"

	"dcverif/ref"
)

// Typed pipeline generator. All documents follow one schema so that generated expressions
// are well typed:
//
//	metadata: {name, namespace, labels: {app?, tier?}}
//	spec: {a: int, b: string, l: list of int | list of {k,v} | absent, opt: int | absent, m: {x: int}}

// PipeConf tunes the generator.
type PipeConf struct {
	MaxSources int
	NoGather   bool
	NoUnwind   bool
	NoJoin     bool
	Cluster    bool     // allow sources without namespaces
	Collide    bool     // allow projections that map several documents to one name
	Kinds      []string // fixed sources
	ListMaps   *bool    // fixed element type of the lists
}

// Pipe is a generated pipeline.
type Pipe struct {
	Stages   []ref.Stage
	Kinds    []string
	Joined   bool
	Gathered bool
	Unwound  bool
	Collides bool
	Cluster  bool // the sources have no namespaces
	ListMaps bool // spec.l holds maps instead of ints
}

// Kinds of the generated sources.
var Kinds = []string{"Alpha", "Beta", "Gamma"}

// schema is the state of the document shape while stages are added.
type shape struct {
	root    string // "$" or "$.Kind"
	list    string // "list", "scalar", "vals"
	isMap   bool   // list elements are maps
	cluster bool   // no namespaces
}

func (s shape) p(f string) string { return s.root + "." + f }

// num draws a number, mostly a small one.
func num(t T, lo, hi int, name string) any {
	if Prob(t, 2, name+" wide") {
		return Pick[any](t, name+" value", int64(10), int64(100), int64(-1), int64(-20), int64(1)<<53+1, int64(2))
	}
	return int64(Int(t, lo, hi, name))
}

// SrcContent draws the content of a source object with the given identity.
func SrcContent(t T, kind, group, ns, name string, listMaps bool) M {
	spec := M{"a": num(t, 0, 3, "a"), "b": Pick(t, "b", "x", "x", "y", "y", "z", "z", "", "X y", "10", "é\"✓"), "m": M{"x": int64(Int(t, 0, 2, "mx"))}}
	switch Int(t, 0, 7, "l") {
	case 0: // absent
	case 1:
		spec["l"] = L{}
	default:
		l := L{}
		for i, n := 0, Int(t, 1, 3, "ln"); i < n; i++ {
			if listMaps {
				l = append(l, M{"k": Pick(t, "lk", "p", "q", "r"), "v": num(t, 0, 3, "lv")})
			} else {
				l = append(l, num(t, 0, 3, "li"))
			}
		}
		spec["l"] = l
	}
	if Bool(t, "hasopt") {
		spec["opt"] = int64(Int(t, 0, 2, "opt"))
	}
	meta := M{"name": name}
	if ns != "" {
		meta["namespace"] = ns
	}
	if Prob(t, 11, "haslabels") {
		lab := M{}
		if Bool(t, "app") {
			lab["app"] = Pick(t, "appv", "web", "db")
		}
		if Bool(t, "tier") {
			lab["tier"] = Pick(t, "tierv", "1", "2")
		}
		meta["labels"] = lab
	}
	if Prob(t, 4, "hasgen") {
		meta["generation"] = int64(Int(t, 1, 2, "gen"))
		meta["resourceVersion"] = Pick(t, "rv", "10", "11")
	}
	if Prob(t, 2, "hasann") {
		meta["annotations"] = M{"note": Pick(t, "ann", "u", "v")}
	}
	av := "v1alpha1"
	if group != "" {
		av = group + "/v1alpha1"
	}
	return M{"apiVersion": av, "kind": kind, "metadata": meta, "spec": spec}
}

// Cond draws a boolean expression over a document of the given schema.
func (s shape) cond(t T, depth int) any {
	if depth > 0 && Prob(t, 6, "compound") {
		switch Int(t, 0, 2, "bool") {
		case 0:
			return M{"@not": s.cond(t, depth-1)}
		case 1:
			return M{"@and": L{s.cond(t, depth-1), s.cond(t, depth-1)}}
		default:
			return M{"@or": L{s.cond(t, depth-1), s.cond(t, depth-1)}}
		}
	}
	n := 9
	if s.list == "vals" {
		switch Int(t, 0, 2, "vcond") {
		case 0:
			return M{"@gt": L{s.p("spec.n"), int64(Int(t, 0, 3, "c"))}}
		case 1:
			return M{"@lte": L{s.p("spec.n"), int64(Int(t, 0, 3, "c"))}}
		default:
			return M{"@eq": L{s.p("spec.n"), int64(Int(t, 1, 2, "c"))}}
		}
	}
	switch Int(t, 0, n, "cond") {
	case 0:
		return M{"@eq": L{s.p("spec.a"), int64(Int(t, 0, 3, "c"))}}
	case 1:
		return M{"@gte": L{s.p("spec.a"), int64(Int(t, 0, 3, "c"))}}
	case 2:
		return M{"@lt": L{s.p("spec.a"), s.p("spec.m.x")}}
	case 3:
		return M{"@in": L{s.p("spec.b"), L{Pick(t, "c", "x", "y", "z"), Pick(t, "c2", "x", "y", "z")}}}
	case 4:
		return M{"@exists": s.p("spec.opt")}
	case 5:
		return M{"@eq": L{s.p("spec.opt"), s.p("spec.a")}}
	case 6:
		return M{"@selector": L{M{"matchLabels": M{"app": Pick(t, "c", "web", "db")}}, s.p("metadata.labels")}}
	case 7:
		if s.cluster {
			return M{"@eq": L{s.p("metadata.name"), Pick(t, "c", "n0", "n1")}}
		}
		return M{"@eq": L{s.p("metadata.namespace"), Pick(t, "c", "default", "other")}}
	default:
		if s.list == "list" {
			item := any("$$")
			if s.isMap {
				item = "$$.v"
			}
			q := Pick(t, "quant", "@any", "@all")
			return M{q: L{M{Pick(t, "cmp", "@gt", "@lte"): L{item, int64(Int(t, 0, 2, "c"))}},
				M{"@definedOr": L{s.p("spec.l"), L{}}}}}
		}
		return M{"@isnil": s.p("spec.opt")}
	}
}

// intExpr draws an integer valued expression.
func (s shape) intExpr(t T) any {
	switch Int(t, 0, 6, "int") {
	case 0:
		return s.p("spec.a")
	case 1:
		return M{"@add": L{s.p("spec.a"), int64(Int(t, 0, 2, "c"))}}
	case 2:
		return M{"@mul": L{s.p("spec.a"), s.p("spec.m.x")}}
	case 3:
		return M{"@definedOr": L{s.p("spec.opt"), int64(Int(t, 0, 3, "c"))}}
	case 4:
		return M{"@cond": L{s.cond(t, 0), s.p("spec.a"), int64(Int(t, 0, 3, "c"))}}
	case 5:
		return M{"@sum": L{s.p("spec.a"), s.p("spec.m.x"), int64(1)}}
	default:
		if s.list == "list" {
			return M{"@len": M{"@definedOr": L{s.p("spec.l"), L{}}}}
		}
		return M{"@max": L{s.p("spec.a"), s.p("spec.m.x")}}
	}
}

func (s shape) strExpr(t T) any {
	switch Int(t, 0, 3, "str") {
	case 0:
		return s.p("spec.b")
	case 1:
		return M{"@concat": L{s.p("spec.b"), Pick(t, "c", "", "x")}}
	case 2:
		return M{"@switch": L{L{s.cond(t, 0), Pick(t, "c", "x", "y")}, L{true, s.p("spec.b")}}}
	default:
		return M{"@string": s.p("spec.a")}
	}
}

// listExpr yields a list-or-null expression of the same element type.
func (s shape) listExpr(t T) any {
	item := any("$$")
	if s.isMap {
		item = "$$.v"
	}
	switch Int(t, 0, 3, "listx") {
	case 0:
		return M{"@filter": L{M{"@gt": L{item, int64(Int(t, 0, 2, "c"))}}, M{"@definedOr": L{s.p("spec.l"), L{}}}}}
	case 1:
		if !s.isMap {
			return M{"@map": L{M{"@add": L{"$$", s.p("spec.a")}}, M{"@definedOr": L{s.p("spec.l"), L{}}}}}
		}
		return s.p("spec.l")
	default:
		return s.p("spec.l")
	}
}

// nsField is a field to compare where namespaced objects would compare namespaces.
func (s shape) nsField() string {
	if s.cluster {
		return "spec.b"
	}
	return "metadata.namespace"
}

// metaOf is the metadata of a projection, without a namespace if it is nil.
func metaOf(name, ns any) M {
	m := M{"name": name}
	if ns != nil {
		m["namespace"] = ns
	}
	return m
}

// same-schema projection; name and namespace given
func (s shape) project(t T, name, ns any, gathered bool) any {
	if gathered {
		spec := M{"l": s.p("spec.l"), "n": s.p("spec.n")}
		return M{"metadata": metaOf(name, ns), "spec": spec}
	}
	spec := M{"a": s.intExpr(t), "b": s.strExpr(t), "m": M{"x": s.p("spec.m.x")}}
	if Bool(t, "keepopt") {
		spec["opt"] = s.p("spec.opt")
	}
	if s.list == "list" {
		spec["l"] = s.listExpr(t)
	} else {
		spec["l"] = s.p("spec.l")
	}
	meta := metaOf(name, ns)
	if Bool(t, "keeplabels") {
		meta["labels"] = s.p("metadata.labels")
	}
	switch Int(t, 0, 3, "pmode") {
	case 0: // list of steps: construct, then override
		return L{M{"metadata": meta, "spec": spec}, M{"$.spec.a": s.intExpr(t)}}
	case 1: // list of steps: maps merged
		return L{M{"metadata": meta}, M{"spec": spec}, M{"spec": M{"b": s.strExpr(t)}}}
	case 2: // path setters in one constructor
		m := M{"metadata": meta, "spec": spec}
		m["extra.key"] = s.p("spec.b")
		return m
	default:
		return M{"metadata": meta, "spec": spec}
	}
}

// DrawPipe draws a pipeline.
func DrawPipe(t T, conf PipeConf) Pipe {
	p := Pipe{ListMaps: Bool(t, "listmaps")}
	n := 1
	if !conf.NoJoin && conf.Kinds == nil {
		n = Int(t, 1, conf.MaxSources, "nsources")
	}
	p.Kinds = append(p.Kinds, Kinds[:n]...)
	if conf.Kinds != nil {
		n, p.Kinds = len(conf.Kinds), append([]string{}, conf.Kinds...)
	}
	if conf.ListMaps != nil {
		p.ListMaps = *conf.ListMaps
	}
	p.Cluster = conf.Cluster && Prob(t, 2, "cluster")
	s := shape{root: "$", list: "list", isMap: p.ListMaps, cluster: p.Cluster}
	nsOf := func(path string) any {
		if !p.Cluster {
			return path
		}
		if Bool(t, "setns") {
			return "default"
		}
		return nil
	}

	if n > 1 || (!conf.NoJoin && Prob(t, 2, "singlejoin")) {
		p.Joined = true
		p.Stages = append(p.Stages, ref.Stage{"@join": joinCond(t, p.Kinds, s)})
		if Prob(t, 4, "preselect") {
			ks := s
			ks.root = "$." + Pick(t, "selkind", p.Kinds...)
			p.Stages = append(p.Stages, ref.Stage{"@select": ks.cond(t, 1)})
		}
		// flatten the compound document
		ks := s
		ks.root = "$." + Pick(t, "mainkind", p.Kinds...)
		ks.isMap = p.ListMaps
		parts := L{}
		for i, k := range p.Kinds {
			if i > 0 {
				parts = append(parts, "-")
			}
			parts = append(parts, "$."+k+".metadata.name")
			if !p.Cluster {
				parts = append(parts, ".", "$."+k+".metadata.namespace")
			}
		}
		var name any = M{"@concat": parts}
		ns := nsOf("$." + p.Kinds[0] + ".metadata.namespace")
		if conf.Collide && Prob(t, 4, "collide") {
			name, p.Collides = ks.root+".metadata.name", true
		}
		p.Stages = append(p.Stages, ref.Stage{"@project": ks.project(t, name, ns, false)})
	}

	for i, m := 0, Int(t, 0, 4, "nstages"); i < m; i++ {
		switch Int(t, 0, 9, "stage") {
		case 0, 1, 2:
			p.Stages = append(p.Stages, ref.Stage{"@select": s.cond(t, 2)})
		case 3, 4, 5:
			var name any = "$.metadata.name"
			if Prob(t, 5, "rename") {
				name = M{"@concat": L{"p-", "$.metadata.name"}}
			}
			ns := nsOf("$.metadata.namespace")

			if conf.Collide && s.list != "vals" && Prob(t, 3, "collide") {
				name, p.Collides = M{"@concat": L{"c-", s.p("spec.b")}}, true
			}
			p.Stages = append(p.Stages, ref.Stage{"@project": s.project(t, name, ns, s.list == "vals")})
		case 6, 7:
			if s.list == "scalar" || conf.NoUnwind {
				continue
			}
			p.Unwound = true
			p.Stages = append(p.Stages, ref.Stage{Pick(t, "unwind", "@unwind", "@demux"): "$.spec.l"})
			if s.list == "vals" {
				// back to a document with scalar l and n
				return p
			}
			s.list = "scalar"
		default:
			if conf.NoGather || s.list == "vals" {
				continue
			}
			p.Gathered = true
			key := Pick(t, "gkey", "$.spec.b", "$.metadata.namespace", "$.spec.a", "$.spec.m")
			if p.Cluster && key == "$.metadata.namespace" {
				key = "$.spec.b"
			}
			val := Pick(t, "gval", "$.spec.a", "$.metadata.name", "$.spec.b")
			if val == key {
				val = "$.metadata.name"
			}
			p.Stages = append(p.Stages, ref.Stage{Pick(t, "gather", "@gather", "@mux"): L{key, val}})
			keystr := any(M{"@string": key})
			if key == "$.spec.m" {
				keystr = M{"@string": "$.spec.m.x"}
			}
			p.Stages = append(p.Stages, ref.Stage{"@project": M{
				"metadata": M{"name": M{"@concat": L{"g-", keystr}}, "namespace": "default"},
				"spec":     M{"l": val, "n": M{"@len": val}, "key": key}}})
			s.list = "vals"
		}
	}
	return p
}

func joinCond(t T, kinds []string, s shape) any {
	ks := func(i int) shape { r := s; r.root = "$." + kinds[i]; return r }
	conds := L{}
	for i := 1; i < len(kinds); i++ {
		a, b := ks(i-1), ks(i)
		switch Int(t, 0, 5, "jcond") {
		case 0:
			conds = append(conds, M{"@eq": L{a.p(s.nsField()), b.p(s.nsField())}})
		case 1:
			conds = append(conds, M{"@eq": L{a.p("spec.b"), b.p("spec.b")}})
		case 2:
			conds = append(conds, M{"@lte": L{a.p("spec.a"), b.p("spec.a")}})
		case 3:
			conds = append(conds, M{"@and": L{
				M{"@eq": L{a.p(s.nsField()), b.p(s.nsField())}},
				M{"@eq": L{a.p("metadata.name"), b.p("metadata.name")}}}})
		case 4:
			if !s.isMap {
				conds = append(conds, M{"@in": L{a.p("spec.a"), M{"@definedOr": L{b.p("spec.l"), L{}}}}})
			} else {
				conds = append(conds, M{"@in": L{a.p("spec.a"), M{"@map": L{"$$.v", M{"@definedOr": L{b.p("spec.l"), L{}}}}}}})
			}
		default:
			conds = append(conds, true)
		}
	}
	if Bool(t, "extra") {
		conds = append(conds, ks(Int(t, 0, len(kinds)-1, "ek")).cond(t, 1))
	}
	switch len(conds) {
	case 0:
		return true
	case 1:
		return conds[0]
	}
	return M{"@and": conds}
}

// Shape is a short class name of the pipeline.
func (p Pipe) Shape() string {
	return fmt.Sprintf("join=%d unwind=%v gather=%v", len(p.Kinds), p.Unwound, p.Gathered)
}
