package gen

// Typed expression generator over a fixed document schema. Every type has literals, paths and
// operators; inside list operators the local subject is available with its type.

// ExprDoc draws a document for the typed expressions.
func ExprDoc(t T) M {
	d := M{
		"b": Bool(t, "b"), "i": int64(Int(t, -3, 9, "i")), "f": float64(Int(t, -9, 9, "f"))/4 + 0.125, "s": Str(t),
		"d": Pick(t, "d", "7", "-3", "2.5", "0", "1e2"),
		"m": M{"x": int64(Int(t, 0, 3, "x")), "x.y": Str(t), "b": Bool(t, "mb")}, "n": nil,
	}
	li := L{}
	for j, n := 0, Int(t, 0, 4, "nli"); j < n; j++ {
		li = append(li, int64(Int(t, -2, 5, "li")))
	}
	lf := L{}
	for j, n := 0, Int(t, 0, 3, "nlf"); j < n; j++ {
		if Bool(t, "isint") {
			lf = append(lf, int64(Int(t, -2, 5, "lfi")))
		} else {
			lf = append(lf, float64(Int(t, -9, 9, "lff"))/2)
		}
	}
	ls := L{}
	for j, n := 0, Int(t, 0, 3, "nls"); j < n; j++ {
		ls = append(ls, Str(t))
	}
	lm := L{}
	for j, n := 0, Int(t, 0, 3, "nlm"); j < n; j++ {
		m := M{"k": Pick(t, "k", "p", "q", "r"), "v": int64(Int(t, 0, 4, "v")), "b": Bool(t, "lb")}
		if Bool(t, "nested") {
			m["l"] = L{int64(Int(t, 0, 3, "l0")), int64(Int(t, 0, 3, "l1"))}
		}
		lm = append(lm, m)
	}
	ln := L{}
	for j, n := 0, Int(t, 0, 3, "nln"); j < n; j++ {
		ln = append(ln, Pick[any](t, "ln", nil, false, int64(0), "", int64(1), "$.i", "@now"))
	}
	d["li"], d["lf"], d["ls"], d["lm"], d["ln"] = li, lf, ls, lm, ln
	if Bool(t, "labels") {
		lab := M{}
		for _, k := range []string{"app", "tier", "env"} {
			if Bool(t, k) {
				lab[k] = Pick(t, "lv", "web", "db", "1")
			}
		}
		d["labels"] = lab
	}
	return d
}

// Scope is what the local subject is: "" (none), "int", "num", "str", "map", "any".
type Scope struct {
	Sub   string
	Bombs bool // use erroneous expressions where they must not be evaluated
}

// Bomb draws an expression whose evaluation fails.
func Bomb(t T) any {
	return Pick[any](t, "bomb", M{"@not": int64(1)}, M{"@add": L{"x", int64(1)}}, M{"@len": int64(3)}, M{"@nosuch": L{}},
		"$.[", M{"@cond": L{int64(1), int64(2)}}, M{"@concat": L{nil}})
}

func (s Scope) bomb(t T, e func() any) any {
	if s.Bombs && Prob(t, 5, "bombs") {
		return Bomb(t)
	}
	return e()
}

// flow draws a lazy operator of the given result type.
func (s Scope) flow(t T, d int, e func() any) any {
	switch Int(t, 0, 3, "flow") {
	case 0:
		if Bool(t, "constant") {
			if Bool(t, "taken") {
				return M{"@cond": L{true, e(), s.bomb(t, e)}}
			}
			return M{"@cond": L{false, s.bomb(t, e), e()}}
		}
		return M{"@cond": L{s.Bool(t, d-1), e(), e()}}
	case 1:
		cases := L{}
		for i, n := 0, Int(t, 0, 2, "cases"); i < n; i++ {
			if Bool(t, "never") {
				cases = append(cases, L{false, s.bomb(t, e)})
			} else {
				cases = append(cases, L{s.Bool(t, d-1), e()})
			}
		}
		cases = append(cases, L{true, e()})
		if s.Bombs && Bool(t, "after") {
			cases = append(cases, L{Bomb(t), Bomb(t)})
		}
		return M{"@switch": cases}
	case 2:
		if Bool(t, "defined") {
			return M{"@definedOr": L{e(), s.bomb(t, e)}}
		}
		return M{"@definedOr": L{Pick[any](t, "absent", "$.n", "$.nosuch", "$.m.nosuch.x", nil, M{"@noop": nil}), e()}}
	default:
		return e()
	}
}

// Bool draws a boolean expression.
func (s Scope) Bool(t T, d int) any {
	if d <= 0 {
		n := 2
		if s.Sub == "map" {
			n = 3
		}
		switch Int(t, 0, n, "b0") {
		case 0:
			return Bool(t, "lit")
		case 1:
			return "$.b"
		case 2:
			return "$.m.b"
		default:
			return "$$.b"
		}
	}
	switch Int(t, 0, 13, "bool") {
	case 0:
		return s.Bool(t, 0)
	case 1:
		return M{"@not": s.Bool(t, d-1)}
	case 2, 3:
		op := Pick(t, "op", "@and", "@or")
		as := L{}
		for i, n := 0, Int(t, 1, 3, "n"); i < n; i++ {
			as = append(as, s.Bool(t, d-1))
		}
		if s.Bombs && Bool(t, "cut") {
			as = append(as, op == "@or", Bomb(t))
		}
		return M{op: as}
	case 4, 5:
		return M{Pick(t, "cmp", "@lt", "@lte", "@gt", "@gte"): L{s.Num(t, d-1), s.Num(t, d-1)}}
	case 6:
		a, b := s.Any(t, d-1), s.Any(t, d-1)
		if Bool(t, "same") {
			b = a
		}
		return M{"@eq": L{a, b}}
	case 7:
		return M{"@eq": L{s.Int(t, d-1), s.Int(t, d-1)}}
	case 8:
		return M{"@in": L{s.Any(t, d-1), s.List(t, d-1, "")}}
	case 9:
		lk, sub := s.listKind(t)
		n := s
		n.Sub = sub
		l := s.List(t, d-1, lk)
		p := n.Bool(t, d-1)
		return M{Pick(t, "quant", "@any", "@all", "@none"): L{p, l}}
	case 10:
		return M{Pick(t, "ex", "@exists", "@isnil", "@has"): s.Any(t, d-1)}
	case 11:
		return M{"@selector": L{Selector(t), Pick[any](t, "lab", "$.labels", M{"app": "web", "tier": "$.s"})}}
	case 12:
		return M{"@bool": s.Bool(t, d-1)}
	default:
		return s.flow(t, d, func() any { return s.Bool(t, d-1) })
	}
}

// Selector draws a label selector as a plain map.
func Selector(t T) any {
	sel := M{}
	if Bool(t, "ml") {
		ml := M{}
		for _, k := range []string{"app", "tier"} {
			if Bool(t, k) {
				ml[k] = Pick(t, "mlv", "web", "db", "1")
			}
		}
		sel["matchLabels"] = ml
	}
	if Bool(t, "me") || len(sel) == 0 {
		me := L{}
		for i, n := 0, Int(t, 0, 2, "nme"); i < n; i++ {
			r := M{"key": Pick(t, "mek", "app", "tier", "env"), "operator": Pick(t, "meo", "In", "NotIn", "Exists", "DoesNotExist")}
			if o := r["operator"]; o == "In" || o == "NotIn" {
				vs := L{Pick(t, "v0", "web", "db", "1")}
				if Bool(t, "two") {
					vs = append(vs, Pick(t, "v1", "web", "db"))
				}
				r["values"] = vs
			}
			me = append(me, r)
		}
		sel["matchExpressions"] = me
	}
	return sel
}

// Int draws an integer expression.
func (s Scope) Int(t T, d int) any {
	if d <= 0 {
		switch Int(t, 0, 3, "i0") {
		case 0:
			return int64(Int(t, -3, 9, "lit"))
		case 1:
			if s.Sub == "int" {
				return Pick(t, "sub", "$$", "$$.")
			}
			if s.Sub == "map" {
				return "$$.v"
			}
			return "$.i"
		case 2:
			return "$.m.x"
		default:
			return "$.i"
		}
	}
	switch Int(t, 0, 8, "int") {
	case 0, 1:
		return s.Int(t, 0)
	case 2, 3:
		return M{Pick(t, "op", "@add", "@sub", "@mul"): L{s.Int(t, d-1), s.Int(t, d-1)}}
	case 4:
		return M{"@len": s.List(t, d-1, "")}
	case 5:
		return M{"@sum": s.List(t, d-1, "int")}
	case 6:
		return M{Pick(t, "op", "@min", "@max"): L{s.Int(t, d-1), s.Int(t, d-1), s.Int(t, d-1)}}
	case 7:
		return M{"@int": s.Int(t, d-1)}
	default:
		return s.flow(t, d, func() any { return s.Int(t, d-1) })
	}
}

// Num draws a numeric expression: integers, floats, numeric strings.
func (s Scope) Num(t T, d int) any {
	switch Int(t, 0, 9, "num") {
	case 0, 1, 2:
		return s.Int(t, d)
	case 3:
		return "$.f"
	case 4:
		return "$.d"
	case 5:
		return float64(Int(t, -9, 9, "lit")) / 2
	}
	if d <= 0 {
		return s.Int(t, 0)
	}
	switch Int(t, 0, 5, "numop") {
	case 0:
		return M{Pick(t, "op", "@add", "@sub", "@mul"): L{s.Num(t, d-1), s.Num(t, d-1)}}
	case 1:
		return M{"@div": L{s.Num(t, d-1), Pick[any](t, "den", "$.f", int64(2), int64(-3), 0.5, s.Num(t, 0))}}
	case 2:
		return M{Pick(t, "op", "@abs", "@ceil", "@floor"): s.Num(t, d-1)}
	case 3:
		return M{Pick(t, "op", "@sum", "@min", "@max"): L{s.Num(t, d-1), s.Num(t, d-1)}}
	case 4:
		return M{"@float": s.Num(t, d-1)}
	default:
		return s.flow(t, d, func() any { return s.Num(t, d-1) })
	}
}

// Str draws a string expression.
func (s Scope) Str(t T, d int) any {
	if d <= 0 {
		switch Int(t, 0, 3, "s0") {
		case 0:
			return Str(t)
		case 1:
			return "$['m']['x.y']"
		case 2:
			if s.Sub == "str" {
				return "$$"
			}
			if s.Sub == "map" {
				return "$$.k"
			}
			return "$.s"
		default:
			return "$.s"
		}
	}
	switch Int(t, 0, 5, "str") {
	case 0:
		return s.Str(t, 0)
	case 1, 2:
		as := L{}
		for i, n := 0, Int(t, 0, 3, "n"); i < n; i++ {
			switch Int(t, 0, 2, "part") {
			case 0:
				as = append(as, s.Int(t, d-1))
			default:
				as = append(as, s.Str(t, d-1))
			}
		}
		return M{"@concat": as}
	case 3:
		return M{"@string": Pick(t, "what", s.Int(t, d-1), s.Str(t, d-1), any("$.f"))}
	case 4:
		return M{"@hash": s.Any(t, d-1)}
	default:
		return s.flow(t, d, func() any { return s.Str(t, d-1) })
	}
}

func (s Scope) listKind(t T) (string, string) {
	k := Pick(t, "lk", "int", "num", "str", "map", "any")
	return k, k
}

// List draws a list expression with elements of a kind ("" for any kind).
func (s Scope) List(t T, d int, kind string) any {
	if kind == "" {
		kind = Pick(t, "lk", "int", "num", "str", "map", "any")
	}
	path := map[string]string{"int": "$.li", "num": "$.lf", "str": "$.ls", "map": "$.lm", "any": "$.ln"}[kind]
	elem := func() any {
		switch kind {
		case "int":
			return s.Int(t, d-1)
		case "num":
			return s.Num(t, d-1)
		case "str":
			return s.Str(t, d-1)
		case "map":
			return M{"k": s.Str(t, d-1), "v": s.Int(t, d-1), "b": s.Bool(t, d-1)}
		}
		return s.Any(t, d-1)
	}
	if d <= 0 {
		return path
	}
	switch Int(t, 0, 6, "list") {
	case 0, 1:
		return path
	case 2:
		l := L{}
		for i, n := 0, Int(t, 0, 3, "n"); i < n; i++ {
			l = append(l, elem())
		}
		return l
	case 3:
		n := s
		n.Sub = kind
		return M{"@filter": L{n.Bool(t, d-1), s.List(t, d-1, kind)}}
	case 4:
		lk, sub := s.listKind(t)
		n := s
		n.Sub = sub
		m := s
		s = n
		f := elem()
		s = m
		return M{"@map": L{f, s.List(t, d-1, lk)}}
	case 5:
		if kind == "int" {
			return M{"@range": L{s.Int(t, 0), s.Int(t, 0)}}
		}
		return path
	default:
		return s.flow(t, d, func() any { return s.List(t, d-1, kind) })
	}
}

// Any draws an expression of any type.
func (s Scope) Any(t T, d int) any {
	switch Int(t, 0, 9, "any") {
	case 0:
		return s.Bool(t, d)
	case 1:
		return s.Int(t, d)
	case 2:
		return s.Num(t, d)
	case 3:
		return s.Str(t, d)
	case 4:
		return s.List(t, d, "")
	case 5:
		return Pick[any](t, "absent", "$.n", "$.nosuch", "$.m.nosuch.x", "$.li[17]", nil, M{"@noop": nil})
	case 6:
		return Pick[any](t, "path", "$.m", "$.li[0]", "$.lm[1].k", "$.ls[-1]", "$", "$.", "$.labels.app", "$['m']")
	case 7:
		if s.Sub != "" {
			return Pick[any](t, "sub", "$$", "$$.", M{"w": "$$", "i": "$.i"})
		}
		return "$.m.x"
	default:
		if d <= 0 {
			return Scalar(t)
		}
		m := M{}
		for i, n := 0, Int(t, 0, 3, "keys"); i < n; i++ {
			m[Pick(t, "key", "a", "b", "x.y", "a-b", "é", "$.p.q", "$.p.r", "$['z.z']", "")] = s.Any(t, d-1)
		}
		return m
	}
}

// Ops are all operators of the language.
var Ops = []string{"@and", "@or", "@not", "@cond", "@noop", "@switch", "@definedOr", "@eq", "@gt", "@gte", "@lt", "@lte", "@map", "@filter",
	"@len", "@min", "@max", "@in", "@range", "@concat", "@string", "@int", "@float", "@bool", "@hash", "@exists", "@isnil", "@has",
	"@any", "@all", "@none", "@abs", "@ceil", "@floor", "@add", "@sub", "@mul", "@div", "@sum", "@selector"}

// Untyped draws an arbitrary operator tree: mostly ill typed.
func (s Scope) Untyped(t T, d int) any {
	if d <= 0 || Prob(t, 3, "leaf") {
		if Bool(t, "scalar") {
			return Scalar(t)
		}
		if s.Sub != "" && Bool(t, "local") {
			return Pick[any](t, "lp", "$$", "$$.k", "$$.l[0]", "$$.b")
		}
		return Pick[any](t, "p", "$.b", "$.i", "$.f", "$.s", "$.d", "$.m", "$.n", "$.li", "$.lf", "$.ls", "$.lm", "$.ln", "$.labels", "$.x.y", "$", "$.")
	}
	if Prob(t, 3, "typed") {
		return s.Any(t, d-1)
	}
	op := Pick(t, "op", Ops...)
	if Prob(t, 1, "unknown") {
		op = Pick(t, "uop", "@foo", "@", "@ eq", "@AND")
	}
	n := Int(t, 0, 3, "nargs")
	if n == 0 && Bool(t, "single") {
		return M{op: s.Untyped(t, d-1)}
	}
	as := L{}
	for i := 0; i < n; i++ {
		sc := s
		if i == 0 && n == 2 && (op == "@map" || op == "@filter" || op == "@any" || op == "@all" || op == "@none") {
			sc.Sub = "any"
		}
		as = append(as, sc.Untyped(t, d-1))
	}
	if op == "@switch" && Bool(t, "pairs") {
		for i := range as {
			as[i] = L{s.Untyped(t, d-1), as[i]}
		}
	}
	return M{op: as}
}
