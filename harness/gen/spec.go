package gen

import "fmt"

// Predicate draws a predicate specification in its JSON form.
func Predicate(t T, depth int) any {
	if depth <= 0 || Prob(t, 7, "basic") {
		return Pick(t, "pred", "GenerationChanged", "ResourceVersionChanged", "LabelChanged", "AnnotationChanged")
	}
	op := Pick(t, "predop", "And", "Or", "Not")
	n := 1
	if op != "Not" {
		n = Int(t, 0, 3, "npred")
	}
	l := L{}
	for i := 0; i < n; i++ {
		l = append(l, Predicate(t, depth-1))
	}
	return M{op: l}
}

// OperatorSpec draws an operator specification in its JSON form: n controllers with random pipelines.
func OperatorSpec(t T) M {
	cs := L{}
	for i, n := 0, Int(t, 1, 3, "controllers"); i < n; i++ {
		p := DrawPipe(t, PipeConf{MaxSources: 2, Collide: true})
		srcs := L{}
		for _, k := range p.Kinds {
			s := M{"kind": k}
			if Bool(t, "group") {
				s["apiGroup"] = Pick(t, "g", "", "apps", "gateway.networking.k8s.io", "other.view.dcontroller.io")
			}
			if Bool(t, "version") {
				s["version"] = Pick(t, "v", "v1", "v1alpha1")
			}
			if Bool(t, "type") {
				s["type"] = Pick(t, "st", "Watcher", "Periodic", "OneShot")
			}
			if Bool(t, "ns") {
				s["namespace"] = Pick(t, "nsv", "default", "other", "")
			}
			if Bool(t, "sel") {
				s["labelSelector"] = Selector(t)
			}
			if Bool(t, "pred") {
				s["predicate"] = Predicate(t, 2)
			}
			if Bool(t, "params") {
				s["parameters"] = M{"period": Pick(t, "per", "5m", "10s"), "x": Value(t, 2)}
			}
			srcs = append(srcs, s)
		}
		stages := L{}
		for _, s := range p.Stages {
			stages = append(stages, M(s))
		}
		var pipe any = stages
		if len(stages) == 1 && Bool(t, "single") {
			pipe = stages[0]
		}
		tgt := M{"kind": Pick(t, "tk", "Target", "Other")}
		if Bool(t, "tgroup") {
			tgt["apiGroup"], tgt["version"] = "apps", "v1"
		}
		if Bool(t, "ttype") {
			tgt["type"] = Pick(t, "tt", "Updater", "Patcher")
		}
		cs = append(cs, M{"name": fmt.Sprintf("ctrl-%d", i), "sources": srcs, "pipeline": pipe, "target": tgt})
	}
	return M{"controllers": cs}
}

// JSONish draws an arbitrary JSON value that resembles the language.
func JSONish(t T, d int) any {
	if d <= 0 || Prob(t, 4, "leaf") {
		if Bool(t, "path") {
			return WildPath(t)
		}
		return Scalar(t)
	}
	if Prob(t, 6, "list") {
		l := L{}
		for i, n := 0, Int(t, 0, 3, "n"); i < n; i++ {
			l = append(l, JSONish(t, d-1))
		}
		return l
	}
	m := M{}
	for i, n := 0, Pick(t, "n", 1, 1, 1, 0, 2, 3); i < n; i++ {
		var k string
		switch Int(t, 0, 5, "key") {
		case 0, 1, 2:
			k = Pick(t, "op", append([]string{"@join", "@select", "@project", "@unwind", "@demux", "@gather", "@mux", "@list", "@dict", "@", "And", "Not", "@rnd"}, Ops...)...)
		case 3:
			k = WildPath(t)
		default:
			k = Pick(t, "k", "metadata", "name", "spec", "a", "", "x.y", "namespace", "labels", "apiVersion", "kind")
		}
		m[k] = JSONish(t, d-1)
	}
	return m
}

// WildPath draws a string that may be a path, valid or not.
func WildPath(t T) string {
	s := Pick(t, "root", "$", "$$", "$.", "$$.", "", "@", "$..")
	for i, n := 0, Int(t, 0, 3, "segs"); i < n; i++ {
		s += Pick(t, "seg", ".a", ".spec", ".metadata", ".name", "[0]", "[-1]", "[1]", "['x.y']", "[*]", ".*", "..a", "[?(@.a==1)]", "[0:2]", "[1,2]", "[",
			"]", "['", "(", "a", ".", "..", " ", "é", "[17]", "[::0]", "[?(@.a)]", "['a','b']", "[?(@.a =~ /x/)]", "\\", "[?(length(@.a) > 1)]", "[99999999999999999999]", "[?($.a == @.b)]", "[-9]")
	}
	return s
}

// Mutate changes some bytes of b.
func Mutate(t T, b []byte) []byte {
	b = append([]byte(nil), b...)
	for i, n := 0, Int(t, 1, 4, "mutations"); i < n; i++ {
		if len(b) == 0 {
			b = []byte{'{'}
		}
		p := Int(t, 0, len(b)-1, "pos")
		switch Int(t, 0, 5, "mut") {
		case 0:
			b[p] = byte(Int(t, 0, 255, "byte"))
		case 1:
			b = append(b[:p], b[p+1:]...)
		case 2:
			q := Int(t, p, min(len(b), p+12), "to")
			b = append(b[:q:q], b[p:]...)
		case 3:
			b = append(b[:p], append([]byte(Pick(t, "tok", "{", "}", "[", "]", ",", ":", "\"", "null", "true", "1e9", "-", "\"$\"", "\"@", "\\u0000", "1.5", "[]", "{}", "\xff")), b[p:]...)...)
		case 4:
			b = b[:p]
		default:
			q := Int(t, 0, len(b)-1, "other")
			b[p], b[q] = b[q], b[p]
		}
	}
	return b
}
