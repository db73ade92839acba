package gen

import (
	"strings"

	"k8s.io/apimachinery/pkg/fields"
)

// Fields draws a field selector of the fields that views can be selected by, and its meaning: an absent field is empty.
func Fields(t T, names ...string) (fields.Selector, func(map[string]any) bool) {
	all := []fields.Selector{}
	conds := []func(map[string]any) bool{}
	for i, n := 0, Pick(t, "nfields", 1, 1, 1, 2); i < n; i++ {
		f := Pick(t, "field", "status.phase", "status.ready", "metadata.name", "metadata.namespace")
		var v string
		switch f {
		case "status.phase":
			v = Pick(t, "phase", "Ready", "Failed", "")
		case "status.ready":
			v = Pick(t, "ready", "true", "false", "")
		case "metadata.name":
			v = Pick(t, "fname", names...)
		default:
			v = Pick(t, "fns", "ns1", "ns2")
		}
		not := Prob(t, 5, "not")
		s := fields.OneTermEqualSelector(f, v)
		if not {
			s = fields.OneTermNotEqualSelector(f, v)
		}
		all = append(all, s)
		conds = append(conds, func(m map[string]any) bool {
			have := ""
			part, key, _ := strings.Cut(f, ".")
			sub, _ := m[part].(map[string]any)
			switch x := sub[key].(type) {
			case string:
				if f != "status.ready" {
					have = x
				}
			case bool:
				if f == "status.ready" {
					have = map[bool]string{true: "true", false: "false"}[x]
				}
			}
			return (have == v) != not
		})
	}
	return fields.AndSelectors(all...), func(m map[string]any) bool {
		for _, c := range conds {
			if !c(m) {
				return false
			}
		}
		return true
	}
}
