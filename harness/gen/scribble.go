package gen

// Scribble overwrites every mutable part of a JSON value in place.
func Scribble(v any) {
	switch x := v.(type) {
	case map[string]any:
		for k, y := range x {
			switch y.(type) {
			case map[string]any, []any:
				Scribble(y)
			default:
				x[k] = "scribble"
			}
		}
		x["scribbled"] = true
	case []any:
		for i, y := range x {
			switch y.(type) {
			case map[string]any, []any:
				Scribble(y)
			default:
				x[i] = "scribble"
			}
		}
	}
}
