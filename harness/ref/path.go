package ref

import (
	"strconv"
	"strings"
)

// Seg is a path segment: a field or an index.
type Seg struct {
	Key string
	Idx int
	IsI bool
}

// ParsePath parses the subset of JSONPath used by the checks: $.a.b[0]["x.y"].
func ParsePath(p string) ([]Seg, bool) {
	if !strings.HasPrefix(p, "$") {
		return nil, false
	}
	p = p[1:]
	segs := []Seg{}
	for len(p) > 0 {
		switch p[0] {
		case '.':
			p = p[1:]
			n := strings.IndexAny(p, ".[")
			if n < 0 {
				n = len(p)
			}
			if n == 0 {
				if p == "" {
					return segs, true
				}
				if p[0] == '[' {
					continue
				}
				return nil, false
			}
			segs = append(segs, Seg{Key: p[:n]})
			p = p[n:]
		case '[':
			n := strings.IndexByte(p, ']')
			if len(p) > 1 && (p[1] == '"' || p[1] == '\'') {
				m := strings.IndexByte(p[2:], p[1])
				if m < 0 {
					return nil, false
				}
				segs = append(segs, Seg{Key: p[2 : 2+m]})
				p = p[2+m+1:]
				if !strings.HasPrefix(p, "]") {
					return nil, false
				}
				p = p[1:]
				continue
			}
			if n < 0 {
				return nil, false
			}
			i, err := strconv.Atoi(p[1:n])
			if err != nil {
				return nil, false
			}
			segs = append(segs, Seg{Idx: i, IsI: true})
			p = p[n+1:]
		default:
			return nil, false
		}
	}
	return segs, true
}

// GetSegs reads a parsed path; nil if absent.
func GetSegs(segs []Seg, v any) any {
	for _, s := range segs {
		if s.IsI {
			l, ok := v.([]any)
			i := s.Idx
			if ok && i < 0 {
				i += len(l)
			}
			if !ok || i < 0 || i >= len(l) {
				return nil
			}
			v = l[i]
			continue
		}
		m, ok := v.(map[string]any)
		if !ok {
			return nil
		}
		v, ok = m[s.Key]
		if !ok {
			return nil
		}
	}
	return v
}

// Get evaluates a path in a context.
func Get(p string, c Ctx) (any, error) {
	obj := c.Obj
	if strings.HasPrefix(p, "$$") {
		if !c.HasSub {
			return nil, bad("no local subject")
		}
		obj = c.Sub
		p = p[1:]
	}
	segs, ok := ParsePath(p)
	if !ok {
		return nil, bad("path %q", p)
	}
	return GetSegs(segs, obj), nil
}

// Set writes a path, creating missing parents: maps for fields and lists, padded with null, for
// indices. A path that meets a null, a scalar or the other kind of container on its way cannot be
// set, neither can an index outside of an existing list.
func Set(p string, v any, m map[string]any) error {
	segs, ok := ParsePath(p)
	if !ok || len(segs) == 0 {
		return bad("path %q", p)
	}
	return SetSegs(segs, v, m)
}

// SetSegs is Set on a parsed path.
func SetSegs(segs []Seg, v any, m map[string]any) error {
	var cur any = m
	for i, s := range segs {
		last := i == len(segs)-1
		if s.IsI {
			l, ok := cur.([]any)
			n := s.Idx
			if n < 0 {
				n += len(l)
			}
			if !ok || n < 0 || n >= len(l) {
				return bad("index")
			}
			if last {
				l[n] = v
				return nil
			}
			cur = l[n]
			continue
		}
		mm, ok := cur.(map[string]any)
		if !ok {
			return bad("parent is not a map")
		}
		if last {
			mm[s.Key] = v
			return nil
		}
		next, ok := mm[s.Key]
		if !ok {
			if nx := segs[i+1]; nx.IsI {
				if nx.Idx < 0 {
					return bad("index")
				}
				next = make([]any, nx.Idx+1)
			} else {
				next = map[string]any{}
			}
			mm[s.Key] = next
		}
		cur = next
	}
	return nil
}

// Copy deep-copies a JSON value.
func Copy(v any) any {
	switch x := v.(type) {
	case map[string]any:
		m := make(map[string]any, len(x))
		for k, y := range x {
			m[k] = Copy(y)
		}
		return m
	case []any:
		l := make([]any, len(x))
		for i, y := range x {
			l[i] = Copy(y)
		}
		return l
	}
	return v
}

// CopyMap deep-copies a document.
func CopyMap(m map[string]any) map[string]any { return Copy(m).(map[string]any) }
