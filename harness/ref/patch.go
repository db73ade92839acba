package ref

// Patch is the reference: the rules of JSON merge patch, with lists patched item by item.
func Patch(o, m any) any {
	switch x := m.(type) {
	case map[string]any:
		r := map[string]any{}
		if om, ok := o.(map[string]any); ok {
			r = CopyMap(om)
		}
		for k, v := range x {
			if v == nil {
				delete(r, k)
			} else {
				r[k] = Patch(r[k], v)
			}
		}
		return r
	case []any:
		r := []any{}
		if ol, ok := o.([]any); ok {
			r = Copy(ol).([]any)
		}
		for i, v := range x {
			if i >= len(r) {
				r = append(r, nil)
			}
			r[i] = Patch(r[i], v)
		}
		return r
	}
	return m
}
