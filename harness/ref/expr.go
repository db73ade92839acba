// Package ref holds the reference models: slow, obviously correct re-implementations of the
// documented semantics, written from the documentation and independent of the code under test.
package ref

import (
	"crypto/md5"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"math/big"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// Expressions are plain JSON values, exactly as a user writes them:
// scalars, lists and maps, where a map with the single key "@op" is an operator.

// Ctx is the evaluation context. Sub is the local subject of list operators.
type Ctx struct {
	Obj    any
	Sub    any
	HasSub bool
}

// ErrType is returned for any ill-typed expression.
var ErrType = errors.New("type error")

// ErrUndefined is returned where the language reference does not define a value: a division by zero.
var ErrUndefined = errors.New("undefined")

func bad(f string, a ...any) error { return fmt.Errorf("%w: %s", ErrType, fmt.Sprintf(f, a...)) }

// Eval evaluates an expression.
func Eval(e any, c Ctx) (any, error) {
	switch x := e.(type) {
	case nil:
		return nil, nil
	case bool, int64, float64:
		return x, nil
	case string:
		if strings.HasPrefix(x, "$") {
			return Get(x, c)
		}
		return x, nil
	case []any:
		ret := []any{}
		for _, s := range x {
			v, err := Eval(s, c)
			if err != nil {
				return nil, err
			}
			ret = append(ret, v)
		}
		// a list that holds nothing but one list stands for that list (an argument list
		// may wrap a single list argument)
		if len(ret) == 1 {
			if l, ok := ret[0].([]any); ok {
				return l, nil
			}
		}
		return ret, nil
	case map[string]any:
		if len(x) == 1 {
			for k, a := range x {
				if strings.HasPrefix(k, "@") {
					return op(k, a, c)
				}
			}
		}
		ret := map[string]any{}
		// plain keys first, then path setters: callers do not mix overlapping ones
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			v, err := Eval(x[k], c)
			if err != nil {
				return nil, err
			}
			if k == "" {
				return nil, bad("empty key")
			}
			if strings.HasPrefix(k, "$") {
				if k == "$." {
					m, ok := v.(map[string]any)
					if !ok {
						return nil, bad("root must be a map")
					}
					for kk, vv := range m {
						ret[kk] = Copy(vv)
					}
					continue
				}
				if err := Set(k, Copy(v), ret); err != nil {
					return nil, err
				}
			} else {
				ret[k] = v
			}
		}
		return ret, nil
	}
	return nil, bad("unknown expression %T", e)
}

func list(v any) ([]any, error) {
	l, ok := v.([]any)
	if !ok {
		return nil, bad("not a list: %v", v)
	}
	return l, nil
}

func boolean(v any) (bool, error) {
	b, ok := v.(bool)
	if !ok {
		return false, bad("not a bool: %v", v)
	}
	return b, nil
}

// args returns the unevaluated argument expressions: a list literal or a single argument.
func args(a any) []any {
	if l, ok := a.([]any); ok {
		return l
	}
	return []any{a}
}

// ToInt converts to an integer: integers and decimal strings.
func ToInt(v any) (int64, bool) {
	switch x := v.(type) {
	case int64:
		return x, true
	case string:
		i, err := strconv.ParseInt(x, 10, 64)
		return i, err == nil
	}
	return 0, false
}

// ToFloat converts to a float: numbers and numeric strings.
func ToFloat(v any) (float64, bool) {
	switch x := v.(type) {
	case int64:
		return float64(x), true
	case float64:
		return x, true
	case string:
		f, err := strconv.ParseFloat(x, 64)
		return f, err == nil
	}
	return 0, false
}

func nums(v any) (is []int64, fs []float64, isInt bool, err error) {
	l, err := list(v)
	if err != nil {
		return nil, nil, false, err
	}
	isInt = true
	for _, x := range l {
		i, ok := ToInt(x)
		if !ok {
			isInt = false
		}
		is = append(is, i)
	}
	if isInt {
		return is, nil, true, nil
	}
	for _, x := range l {
		f, ok := ToFloat(x)
		if !ok {
			return nil, nil, false, bad("not a number: %v", x)
		}
		fs = append(fs, f)
	}
	return nil, fs, false, nil
}

func two(v any) (any, any, error) {
	l, err := list(v)
	if err != nil {
		return nil, nil, err
	}
	if len(l) != 2 {
		return nil, nil, bad("expected 2 arguments")
	}
	return l[0], l[1], nil
}

// Equal is structural equality; int and float are different types.
func Equal(a, b any) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case bool:
		y, ok := b.(bool)
		return ok && x == y
	case int64:
		y, ok := b.(int64)
		return ok && x == y
	case float64:
		y, ok := b.(float64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case []any:
		y, ok := b.([]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !Equal(x[i], y[i]) {
				return false
			}
		}
		return true
	case map[string]any:
		y, ok := b.(map[string]any)
		if !ok || len(x) != len(y) {
			return false
		}
		for k, v := range x {
			w, ok := y[k]
			if !ok || !Equal(v, w) {
				return false
			}
		}
		return true
	}
	return false
}

func perItem(a any, c Ctx, f func(item, res any) (bool, error)) error {
	as := args(a)
	if len(as) != 2 {
		return bad("expected 2 arguments")
	}
	lv, err := Eval(as[1], c)
	if err != nil {
		return err
	}
	l, err := list(lv)
	if err != nil {
		return err
	}
	for _, item := range l {
		r, err := Eval(as[0], Ctx{Obj: c.Obj, Sub: item, HasSub: true})
		if err != nil {
			return err
		}
		stop, err := f(item, r)
		if err != nil {
			return err
		}
		if stop {
			return nil
		}
	}
	return nil
}

//nolint:gocyclo
func op(name string, a any, c Ctx) (any, error) {
	// operators that control the evaluation of their arguments
	switch name {
	case "@noop":
		return nil, nil
	case "@and", "@or":
		v := name == "@and"
		for _, x := range args(a) {
			r, err := Eval(x, c)
			if err != nil {
				return nil, err
			}
			b, err := boolean(r)
			if err != nil {
				return nil, err
			}
			if b != v {
				return b, nil
			}
		}
		return v, nil
	case "@cond":
		as := args(a)
		if len(as) != 2 && len(as) != 3 {
			return nil, bad("@cond")
		}
		r, err := Eval(as[0], c)
		if err != nil {
			return nil, err
		}
		b, err := boolean(r)
		if err != nil {
			return nil, err
		}
		if b {
			return Eval(as[1], c)
		}
		if len(as) == 3 {
			return Eval(as[2], c)
		}
		return nil, nil
	case "@switch":
		if len(args(a)) == 0 {
			return nil, bad("@switch")
		}
		for _, p := range args(a) {
			pl, ok := p.([]any)
			if !ok || len(pl) != 2 {
				return nil, bad("@switch")
			}
			r, err := Eval(pl[0], c)
			if err != nil {
				return nil, err
			}
			b, err := boolean(r)
			if err != nil {
				return nil, err
			}
			if b {
				return Eval(pl[1], c)
			}
		}
		return nil, nil
	case "@definedOr":
		as := args(a)
		if len(as) != 2 {
			return nil, bad("@definedOr")
		}
		v, err := Eval(as[0], c)
		if err != nil || v != nil {
			return v, err
		}
		return Eval(as[1], c)
	case "@map":
		ret := []any{}
		err := perItem(a, c, func(_, r any) (bool, error) { ret = append(ret, r); return false, nil })
		if err != nil {
			return nil, err
		}
		return ret, nil
	case "@filter":
		ret := []any{}
		err := perItem(a, c, func(item, r any) (bool, error) {
			b, err := boolean(r)
			if b {
				ret = append(ret, item)
			}
			return false, err
		})
		if err != nil {
			return nil, err
		}
		return ret, nil
	case "@any", "@all", "@none":
		v := name != "@any"
		err := perItem(a, c, func(_, r any) (bool, error) {
			b, err := boolean(r)
			if err != nil {
				return false, err
			}
			switch {
			case name == "@any" && b:
				v = true
				return true, nil
			case name == "@all" && !b, name == "@none" && b:
				v = false
				return true, nil
			}
			return false, nil
		})
		if err != nil {
			return nil, err
		}
		return v, nil
	}

	v, err := Eval(a, c)
	if err != nil {
		return nil, err
	}

	switch name {
	case "@isnil":
		return v == nil, nil
	case "@exists", "@has":
		return v != nil, nil
	case "@not":
		b, err := boolean(v)
		if err != nil {
			return nil, err
		}
		return !b, nil
	case "@eq":
		x, y, err := two(v)
		if err != nil {
			return nil, err
		}
		// null compares unequal to everything, as in SQL
		return x != nil && y != nil && Equal(x, y), nil
	case "@lt", "@lte", "@gt", "@gte", "@add", "@sub", "@mul":
		is, fs, isInt, err := nums(v)
		if err != nil {
			return nil, err
		}
		if len(is)+len(fs) != 2 {
			return nil, bad("expected 2 numbers")
		}
		if isInt {
			x, y := is[0], is[1]
			switch name {
			case "@lt":
				return x < y, nil
			case "@lte":
				return x <= y, nil
			case "@gt":
				return x > y, nil
			case "@gte":
				return x >= y, nil
			case "@add":
				return x + y, nil
			case "@sub":
				return x - y, nil
			}
			return x * y, nil
		}
		x, y := fs[0], fs[1]
		switch name {
		case "@lt":
			return x < y, nil
		case "@lte":
			return x <= y, nil
		case "@gt":
			return x > y, nil
		case "@gte":
			return x >= y, nil
		case "@add":
			return x + y, nil
		case "@sub":
			return x - y, nil
		}
		return x * y, nil
	case "@div":
		x, y, err := two(v)
		if err != nil {
			return nil, err
		}
		fx, ok1 := ToFloat(x)
		fy, ok2 := ToFloat(y)
		if !ok1 || !ok2 {
			return nil, bad("@div")
		}
		if fy == 0 {
			return nil, ErrUndefined
		}
		return fx / fy, nil
	case "@abs", "@ceil", "@floor":
		f, ok := ToFloat(v)
		if !ok {
			return nil, bad("not a number")
		}
		switch name {
		case "@abs":
			return math.Abs(f), nil
		case "@ceil":
			return math.Ceil(f), nil
		}
		return math.Floor(f), nil
	case "@sum":
		is, fs, isInt, err := nums(v)
		if err != nil {
			return nil, err
		}
		if isInt {
			s := int64(0)
			for _, i := range is {
				s += i
			}
			return s, nil
		}
		s := 0.0
		for _, f := range fs {
			s += f
		}
		return s, nil
	case "@min", "@max":
		is, fs, isInt, err := nums(v)
		if err != nil {
			return nil, err
		}
		if len(is)+len(fs) == 0 {
			return nil, nil
		}
		if isInt {
			m := is[0]
			for _, i := range is {
				if (name == "@min" && i < m) || (name == "@max" && i > m) {
					m = i
				}
			}
			return m, nil
		}
		m := fs[0]
		for _, f := range fs {
			if (name == "@min" && f < m) || (name == "@max" && f > m) {
				m = f
			}
		}
		return m, nil
	case "@len":
		l, err := list(v)
		if err != nil {
			return nil, err
		}
		return int64(len(l)), nil
	case "@in":
		x, y, err := two(v)
		if err != nil {
			return nil, err
		}
		l, err := list(y)
		if err != nil {
			return nil, err
		}
		for _, i := range l {
			if Equal(i, x) {
				return true, nil
			}
		}
		return false, nil
	case "@range":
		l, err := list(v)
		if err != nil {
			return nil, err
		}
		if len(l) != 2 {
			return nil, bad("@range")
		}
		s, ok1 := ToInt(l[0])
		e, ok2 := ToInt(l[1])
		if !ok1 || !ok2 {
			return nil, bad("@range")
		}
		ret := []any{}
		for i := s; i < e; i++ {
			ret = append(ret, i)
		}
		return ret, nil
	case "@concat":
		l, err := list(v)
		if err != nil {
			return nil, err
		}
		s := ""
		for _, x := range l {
			t, ok := ToString(x)
			if !ok {
				return nil, bad("@concat")
			}
			s += t
		}
		return s, nil
	case "@string":
		s, ok := ToString(v)
		if !ok {
			return nil, bad("@string")
		}
		return s, nil
	case "@int":
		i, ok := ToInt(v)
		if !ok {
			return nil, bad("@int")
		}
		return i, nil
	case "@float":
		f, ok := ToFloat(v)
		if !ok {
			return nil, bad("@float")
		}
		return f, nil
	case "@bool":
		return boolean(v)
	case "@selector":
		x, y, err := two(v)
		if err != nil {
			return nil, err
		}
		if x == nil || y == nil {
			return false, nil
		}
		sel, ok1 := x.(map[string]any)
		lab, ok2 := y.(map[string]any)
		if !ok1 || !ok2 {
			return nil, bad("@selector")
		}
		return MatchSelector(sel, lab)
	case "@hash":
		return Hash(v), nil
	}
	return nil, bad("unknown op %s", name)
}

// JSON serializes a value with floats always recognizable as such.
func JSON(v any) string {
	var b strings.Builder
	writeJSON(&b, v)
	return b.String()
}

func writeJSON(b *strings.Builder, v any) {
	switch x := v.(type) {
	case float64:
		s := strconv.FormatFloat(x, 'g', -1, 64)
		if !strings.ContainsAny(s, ".eEIN") {
			s += ".0"
		}
		b.WriteString(s)
	case []any:
		b.WriteByte('[')
		for i, y := range x {
			if i > 0 {
				b.WriteByte(',')
			}
			writeJSON(b, y)
		}
		b.WriteByte(']')
	case map[string]any:
		keys := make([]string, 0, len(x))
		for k := range x {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		b.WriteByte('{')
		for i, k := range keys {
			if i > 0 {
				b.WriteByte(',')
			}
			writeJSON(b, k)
			b.WriteByte(':')
			writeJSON(b, x[k])
		}
		b.WriteByte('}')
	default:
		js, err := json.Marshal(binary(v))
		if err != nil {
			panic(err)
		}
		b.Write(js)
	}
}

// Hash is the first 6 digits of the base36 MD5 sum of the JSON form.
func Hash(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "?"
	}
	sum := md5.Sum(b)
	s := new(big.Int).SetBytes(sum[:]).Text(36)
	return (strings.Repeat("0", 25-len(s)) + s)[:6]
}

// ToString converts scalars to their string representation.
func ToString(v any) (string, bool) {
	switch x := v.(type) {
	case string:
		return x, true
	case int64:
		return strconv.FormatInt(x, 10), true
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64), true
	}
	return "", false
}

// MatchSelector is Kubernetes label selector semantics.
func MatchSelector(sel, lab map[string]any) (bool, error) {
	str := func(v any) string {
		if s, ok := ToString(v); ok {
			return s
		}
		return fmt.Sprintf("%v", v)
	}
	ml, hasL := sel["matchLabels"].(map[string]any)
	me, hasE := sel["matchExpressions"].([]any)
	if !hasL && !hasE {
		ml = sel // a plain map is a set of labels to match
	}
	for k, v := range ml {
		if !labelRE.MatchString(k) || str(v) != "" && !labelRE.MatchString(str(v)) {
			return false, ErrUndefined
		}
	}
	ret := true
	for k, v := range ml {
		l, ok := lab[k]
		if !ok || str(l) != str(v) {
			ret = false
		}
	}
	for _, x := range me {
		m, ok1 := x.(map[string]any)
		k, ok2 := m["key"].(string)
		if !ok1 || !ok2 || !labelRE.MatchString(k) {
			return false, ErrUndefined
		}
		l, has := lab[k]
		in := false
		vs, _ := m["values"].([]any)
		for _, v := range vs {
			if !labelRE.MatchString(str(v)) {
				return false, ErrUndefined
			}
			if has && str(v) == str(l) {
				in = true
			}
		}
		okk := false
		switch m["operator"] {
		case "In":
			okk = has && in
		case "NotIn":
			okk = !has || !in
		case "Exists":
			okk = has
		case "DoesNotExist":
			okk = !has
		default:
			return false, bad("operator")
		}
		if set := m["operator"] == "In" || m["operator"] == "NotIn"; set != (len(vs) > 0) {
			return false, bad("values")
		}
		if !okk {
			ret = false
		}
	}
	return ret, nil
}

var labelRE = regexp.MustCompile(`^[A-Za-z0-9]([-A-Za-z0-9_.]{0,50}[A-Za-z0-9])?$`)
