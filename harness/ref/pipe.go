package ref

import (
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"unicode/utf8"
)

// Stage is one pipeline stage: {"@select": expr} and so on, as plain JSON.
type Stage = map[string]any

// Bag is a multiset of documents.
type Bag []map[string]any

// Source is a named collection of documents.
type Source struct {
	Kind string
	Docs []map[string]any
}

// RunPipeline evaluates a pipeline from scratch on the current sources.
func RunPipeline(stages []Stage, sources []Source) (Bag, error) {
	var cur Bag
	i := 0
	if len(stages) > 0 {
		if e, ok := stages[0]["@join"]; ok {
			b, err := join(e, sources)
			if err != nil {
				return nil, err
			}
			cur = b
			i = 1
		}
	}
	if i == 0 {
		for _, d := range sources[0].Docs {
			cur = append(cur, CopyMap(d))
		}
	}
	for ; i < len(stages); i++ {
		var err error
		for op, e := range stages[i] {
			cur, err = stage(op, e, cur)
		}
		if err != nil {
			return nil, err
		}
	}
	return cur, nil
}

func join(e any, sources []Source) (Bag, error) {
	ret := Bag{}
	var rec func(i int, acc map[string]any) error
	rec = func(i int, acc map[string]any) error {
		if i == len(sources) {
			doc := CopyMap(acc)
			v, err := Eval(e, Ctx{Obj: doc})
			if err != nil {
				return err
			}
			b, err := boolean(v)
			if err != nil {
				return err
			}
			if b {
				ret = append(ret, doc)
			}
			return nil
		}
		for _, d := range sources[i].Docs {
			acc[sources[i].Kind] = d
			if err := rec(i+1, acc); err != nil {
				return err
			}
		}
		delete(acc, sources[i].Kind)
		return nil
	}
	return ret, rec(0, map[string]any{})
}

func stage(op string, e any, in Bag) (Bag, error) {
	out := Bag{}
	switch op {
	case "@select":
		for _, d := range in {
			v, err := Eval(e, Ctx{Obj: d})
			if err != nil {
				return nil, err
			}
			b, err := boolean(v)
			if err != nil {
				return nil, err
			}
			if b {
				out = append(out, d)
			}
		}
	case "@project":
		for _, d := range in {
			v, err := Project(e, d)
			if err != nil {
				return nil, err
			}
			out = append(out, v)
		}
	case "@unwind", "@demux":
		path := e.(string)
		for _, d := range in {
			name := GetSegs([]Seg{{Key: "metadata"}, {Key: "name"}}, d)
			v, err := Get(path, Ctx{Obj: d})
			if err != nil {
				return nil, err
			}
			if v == nil {
				continue
			}
			l, err := list(v)
			if err != nil {
				return nil, err
			}
			for i, item := range l {
				n := CopyMap(d)
				if err := Set(path, Copy(item), n); err != nil {
					return nil, err
				}
				if err := Set("$.metadata.name", fmt.Sprintf("%v-%d", name, i), n); err != nil {
					return nil, err
				}
				out = append(out, n)
			}
		}
	case "@gather", "@mux":
		a := e.([]any)
		type group struct {
			rep  map[string]any
			vals []any
		}
		groups := map[string]*group{}
		keys := []string{}
		for _, d := range in {
			k, err := Eval(a[0], Ctx{Obj: d})
			if err != nil {
				return nil, err
			}
			v, err := Eval(a[1], Ctx{Obj: d})
			if err != nil {
				return nil, err
			}
			if k == nil || v == nil {
				continue
			}
			ks := Canon(k)
			g := groups[ks]
			if g == nil {
				g = &group{rep: d}
				groups[ks] = g
				keys = append(keys, ks)
			}
			g.vals = append(g.vals, Copy(v))
		}
		for _, k := range keys {
			g := groups[k]
			sort.SliceStable(g.vals, func(i, j int) bool { return less(g.vals[i], g.vals[j]) })
			n := CopyMap(g.rep)
			if err := Set(a[1].(string), g.vals, n); err != nil {
				return nil, err
			}
			out = append(out, n)
		}
	default:
		return nil, bad("stage %s", op)
	}
	return out, nil
}

// Project evaluates a projection: a map, or a list of maps merged in sequence.
func Project(e any, d map[string]any) (map[string]any, error) {
	steps, ok := e.([]any)
	if !ok {
		steps = []any{e}
	}
	var acc any
	for _, s := range steps {
		v, err := Eval(s, Ctx{Obj: d})
		if err != nil {
			return nil, err
		}
		// an expression may itself yield a list of objects
		if l, isl := v.([]any); isl {
			for _, x := range l {
				acc = Merge(acc, x)
			}
			continue
		}
		acc = Merge(acc, v)
	}
	m, ok := acc.(map[string]any)
	if !ok {
		return nil, bad("projection does not yield an object")
	}
	return CopyMap(m), nil
}

// Merge merges b into a: maps recursively, lists are appended, everything else is overridden.
func Merge(a, b any) any {
	if a == nil {
		return Copy(b)
	}
	if mb, ok := b.(map[string]any); ok {
		if ma, ok := a.(map[string]any); ok {
			r := CopyMap(ma)
			for k, v := range mb {
				if w, ok := ma[k]; ok {
					r[k] = Merge(w, v)
				} else {
					r[k] = Copy(v)
				}
			}
			return r
		}
	}
	if lb, ok := b.([]any); ok {
		if la, ok := a.([]any); ok {
			r := Copy(la).([]any)
			return append(r, Copy(lb).([]any)...)
		}
	}
	return Copy(b)
}

// Canon is a canonical text of a JSON value (map keys sorted).
func Canon(v any) string {
	b, err := json.Marshal(binary(v))
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// binary makes strings of bytes that are no valid UTF-8 distinguishable in JSON.
func binary(v any) any {
	switch x := v.(type) {
	case string:
		if !utf8.ValidString(x) {
			return fmt.Sprintf("bytes:%x", x)
		}
	case []any:
		if x == nil {
			return v
		}
		r := make([]any, len(x))
		for i, y := range x {
			r[i] = binary(y)
		}
		return r
	case map[string]any:
		if x == nil {
			return v
		}
		r := make(map[string]any, len(x))
		for k, y := range x {
			r[binary(k).(string)] = binary(y)
		}
		return r
	}
	return v
}

// less is the order of gathered values: numbers by value, strings by bytes, the rest by their JSON text.
func less(a, b any) bool {
	x, ok := number(a)
	y, ok2 := number(b)
	if ok && ok2 {
		return x.Cmp(y) < 0
	}
	if s, ok := a.(string); ok {
		if t, ok := b.(string); ok {
			return s < t
		}
	}
	return Canon(a) < Canon(b)
}

func number(v any) (*big.Float, bool) {
	switch x := v.(type) {
	case int64:
		return new(big.Float).SetInt64(x), true
	case float64:
		return big.NewFloat(x), true
	}
	return nil, false
}

// SortLists sorts the list at a given path, for comparisons up to list order.
func SortLists(v any) any {
	switch x := v.(type) {
	case map[string]any:
		for k, y := range x {
			x[k] = SortLists(y)
		}
		return x
	case []any:
		for i, y := range x {
			x[i] = SortLists(y)
		}
		sort.Slice(x, func(i, j int) bool { return Canon(x[i]) < Canon(x[j]) })
		return x
	}
	return v
}
