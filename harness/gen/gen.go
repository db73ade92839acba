// Package gen holds the generators shared by the checks.
package gen

import (
	"encoding/json"
	"fmt"

	"pgregory.net/rapid"

	"dcverif/ref"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/expression"
	"github.com/l7mp/dcontroller/pkg/object"
)

// T draws random choices.
type T = *rapid.T

// Int draws an int in [lo,hi].
func Int(t T, lo, hi int, name string) int { return rapid.IntRange(lo, hi).Draw(t, name) }

// Bool draws a bool.
func Bool(t T, name string) bool { return rapid.Bool().Draw(t, name) }

// Prob is true with probability of about n in 16.
func Prob(t T, n int, name string) bool { return rapid.IntRange(0, 15).Draw(t, name) >= 16-n }

// Pick draws one of the given values.
func Pick[V any](t T, name string, vs ...V) V { return vs[rapid.IntRange(0, len(vs)-1).Draw(t, name)] }

// M is a JSON object.
type M = map[string]any

// L is a JSON list.
type L = []any

// FieldNames is the pool of field names.
var FieldNames = []string{"a", "b", "c", "x", "spec", "metadata", "name"}

// Scalar draws a scalar.
func Scalar(t T) any {
	switch Int(t, 0, 9, "scalar") {
	case 0:
		return nil
	case 1:
		return Bool(t, "b")
	case 2, 3, 4:
		return int64(Int(t, -3, 12, "i"))
	case 5:
		return float64(Int(t, -9, 9, "f"))/2 + 0.25
	default:
		return Str(t)
	}
}

// Str draws a string: words, numeric strings, the empty string, odd characters.
func Str(t T) string {
	return Pick(t, "s", "a", "b", "abc", "x.y", "7", "-3", "2.5", "", "foo bar", "é✓", "true", "a-b_c", "\"q\"", "0", "null")
}

// Value draws a JSON value of bounded depth.
func Value(t T, depth int) any {
	if depth <= 0 || Prob(t, 8, "leaf") {
		return Scalar(t)
	}
	if Bool(t, "list") {
		n := Int(t, 0, 3, "len")
		l := make(L, 0, n)
		for i := 0; i < n; i++ {
			l = append(l, Value(t, depth-1))
		}
		return l
	}
	return Doc(t, depth-1)
}

// Doc draws a JSON object.
func Doc(t T, depth int) M {
	n := Int(t, 0, 4, "fields")
	m := M{}
	for i := 0; i < n; i++ {
		m[Pick(t, "k", FieldNames...)] = Value(t, depth)
	}
	return m
}

// Expr parses a plain JSON expression with the code under test.
func Expr(e any) (expression.Expression, error) {
	var x expression.Expression
	err := json.Unmarshal([]byte(ref.JSON(e)), &x)
	return x, err
}

// Pipeline parses plain JSON stages with the code under test.
func Pipeline(stages []ref.Stage) (opv1a1.Pipeline, error) {
	var p opv1a1.Pipeline
	b, err := json.Marshal(stages)
	if err != nil {
		return p, err
	}
	err = json.Unmarshal(b, &p)
	return p, err
}

// Obj makes an unstructured object with the given content (not copied).
func Obj(content M) object.Object {
	o := object.New()
	o.Object = content
	return o
}

// Floats in JSON without a fraction come back as integers; keep generated floats fractional.
var _ = fmt.Sprintf

// Convert converts a JSON value to a typed object.
func Convert(from, to any) error {
	b, err := json.Marshal(from)
	if err != nil {
		return err
	}
	return json.Unmarshal(b, to)
}
