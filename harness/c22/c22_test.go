package c22

import (
	"context"
	"fmt"
	"net/url"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"
	"dcverif/rst"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/types"
	toolscache "k8s.io/client-go/tools/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
)

type M = gen.M
type L = gen.L

var ctx = context.Background()

// norm drops what the server manages itself.
func norm(m M) M {
	if m == nil {
		return nil
	}
	m = ref.CopyMap(m)
	if meta, ok := m["metadata"].(M); ok {
		for _, k := range []string{"managedFields", "uid", "creationTimestamp", "resourceVersion", "generation"} {
			delete(meta, k)
		}
		for _, k := range []string{"labels", "annotations"} {
			if l, ok := meta[k].(M); ok && len(l) == 0 || meta[k] == nil {
				delete(meta, k)
			}
		}
	}
	return m
}

func js(m M) string { return ref.JSON(norm(m)) }

func noNull(v any) any {
	switch x := v.(type) {
	case M:
		r := M{}
		for k, e := range x {
			if e != nil {
				r[k] = noNull(e)
			}
		}
		return r
	case L:
		r := L{}
		for _, e := range x {
			if e != nil {
				r = append(r, noNull(e))
			}
		}
		return r
	}
	return v
}

// mergePatch is RFC 7386.
func mergePatch(o any, p any) any {
	pm, ok := p.(M)
	if !ok {
		return p
	}
	r := M{}
	if om, ok := o.(M); ok {
		r = ref.CopyMap(om)
	}
	for k, v := range pm {
		if v == nil {
			delete(r, k)
		} else {
			r[k] = mergePatch(r[k], v)
		}
	}
	return r
}

// graft is server-side apply of fields nobody applied before.
func graft(o M, p M) M {
	r := ref.CopyMap(o)
	for k, v := range p {
		pm, ok := v.(M)
		om, ok2 := r[k].(M)
		if ok && ok2 {
			r[k] = graft(om, pm)
		} else {
			r[k] = ref.Copy(v)
		}
	}
	return r
}

// sel is a selection of objects.
type sel struct {
	ns, labels, fields string
	match              func(m M) bool
}

func (s sel) String() string { return fmt.Sprintf("[ns=%q %s %s]", s.ns, s.labels, s.fields) }

func (s sel) query() url.Values {
	q := url.Values{}
	if s.labels != "" {
		q.Set("labelSelector", s.labels)
	}
	if s.fields != "" {
		q.Set("fieldSelector", s.fields)
	}
	return q
}

func meta(m M) M       { return m["metadata"].(M) }
func specOf(m M) M     { s, _ := m["spec"].(M); return s }
func labelsOf(m M) M   { l, _ := meta(m)["labels"].(M); return l }
func keyOf(m M) string { return fmt.Sprintf("%v/%v", meta(m)["namespace"], meta(m)["name"]) }

func drawSel(t gen.T) sel {
	s := sel{ns: gen.Pick(t, "selns", "", "ns1", "ns2")}
	fs := []func(m M) bool{func(m M) bool { return s.ns == "" || meta(m)["namespace"] == s.ns }}
	ls, fl := []string{}, []string{}
	for i, n := 0, gen.Pick(t, "nsel", 0, 0, 1, 1, 2); i < n; i++ {
		k, v := gen.Pick(t, "selk", "app", "tier"), gen.Pick(t, "selv", "x", "y")
		switch gen.Int(t, 0, 5, "selop") {
		case 0, 1:
			ls = append(ls, k+"="+v)
			fs = append(fs, func(m M) bool { return labelsOf(m)[k] == v })
		case 2:
			ls = append(ls, k+"!="+v)
			fs = append(fs, func(m M) bool { return labelsOf(m)[k] != v })
		case 3:
			ls = append(ls, k)
			fs = append(fs, func(m M) bool { return labelsOf(m)[k] != nil })
		case 4:
			ls = append(ls, "!"+k)
			fs = append(fs, func(m M) bool { return labelsOf(m)[k] == nil })
		case 5:
			ls = append(ls, k+" in (x,z)")
			fs = append(fs, func(m M) bool { return labelsOf(m)[k] == "x" || labelsOf(m)[k] == "z" })
		}
	}
	if gen.Prob(t, 4, "fieldsel") {
		n := gen.Pick(t, "fsname", "a", "b")
		switch gen.Int(t, 0, 2, "fsop") {
		case 0:
			fl = append(fl, "metadata.name="+n)
			fs = append(fs, func(m M) bool { return meta(m)["name"] == n })
		case 1:
			fl = append(fl, "metadata.name!="+n)
			fs = append(fs, func(m M) bool { return meta(m)["name"] != n })
		case 2:
			fl = append(fl, "metadata.namespace=ns2")
			fs = append(fs, func(m M) bool { return meta(m)["namespace"] == "ns2" })
		}
	}
	s.labels, s.fields = strings.Join(ls, ","), strings.Join(fl, ",")
	s.match = func(m M) bool {
		for _, f := range fs {
			if !f(m) {
				return false
			}
		}
		return true
	}
	return s
}

// token is a thing a watch must (or may) report about one object.
type token struct {
	state    string // "" if gone
	optional bool
}

// sub is a watch or a handler of the operators.
type sub struct {
	name  string
	g     schema.GroupVersionKind
	match func(m M) bool
	want  map[string][]token
	watch *rst.Watch
	mu    sync.Mutex
	seen  []rst.Event
}

func (s *sub) note(key string, old, cur M) {
	vis := func(m M) bool { return m != nil && s.match(m) }
	switch {
	case vis(cur):
		s.want[key] = append(s.want[key], token{state: js(cur)})
	case vis(old):
		// an update that leaves the selection may go unreported
		s.want[key] = append(s.want[key], token{optional: cur != nil})
	case old != nil && cur == nil:
		s.want[key] = append(s.want[key], token{optional: true})
	}
}

func (s *sub) events() ([]rst.Event, bool) {
	if s.watch != nil {
		return s.watch.Events()
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]rst.Event{}, s.seen...), false
}

// check compares what was seen with what is due.
func (s *sub) check() string {
	evs, ended := s.events()
	if ended {
		return s.name + ": the watch has ended"
	}
	seen := map[string][]token{}
	for _, e := range evs {
		if e.Type != "ADDED" && e.Type != "MODIFIED" && e.Type != "DELETED" {
			return fmt.Sprintf("%s: unexpected event %s %s", s.name, e.Type, ref.JSON(e.Obj))
		}
		k := keyOf(e.Obj)
		t := token{}
		if e.Type != "DELETED" {
			t.state = js(e.Obj)
		}
		seen[k] = append(seen[k], t)
	}
	keys := map[string]bool{}
	for k := range seen {
		keys[k] = true
	}
	for k := range s.want {
		keys[k] = true
	}
	for k := range keys {
		got, want := seen[k], s.want[k]
		j, last := 0, "none"
		bad := ""
		for i, w := range want {
			for j < len(got) && got[j].state == last && (w.state != last || last == "") {
				j++ // a repetition
			}
			switch {
			case j < len(got) && got[j].state == w.state:
				last = w.state
				j++
			case w.optional, w.state == last:
			default:
				bad = fmt.Sprintf("change %d is not reported", i)
			}
			if bad != "" {
				break
			}
		}
		for bad == "" && j < len(got) {
			if got[j].state != last {
				bad = fmt.Sprintf("event %d is not due", j)
			}
			j++
		}
		if bad != "" {
			return fmt.Sprintf("%s: %s: %s\n      due:  %s\n      seen: %s", s.name, k, bad, tokens(want), tokens(got))
		}
	}
	return ""
}

func tokens(ts []token) string {
	r := []string{}
	for _, t := range ts {
		s := t.state
		if s == "" {
			s = "gone"
			if t.optional {
				s = "(gone)"
			}
		}
		r = append(r, s)
	}
	return strings.Join(r, " | ")
}

type world struct {
	c    *hx.Case
	s    *rst.Server
	gs   []schema.GroupVersionKind
	objs map[schema.GroupVersionKind]map[string]M
	subs []*sub
	mgr  int
}

func (w *world) set(g schema.GroupVersionKind, key string, cur M) {
	old := w.objs[g][key]
	if cur == nil {
		delete(w.objs[g], key)
	} else {
		w.objs[g][key] = norm(cur)
	}
	for _, s := range w.subs {
		if s.g == g {
			s.note(key, old, cur)
		}
	}
}

// do sends a request and expects one of the codes.
func (w *world) do(r rst.Req, codes ...int) (int, M) {
	w.c.Step("%s", r)
	code, m, err := w.s.Do(r)
	if err != nil {
		w.c.Failf("%s: %v", r, err)
	}
	for _, x := range codes {
		if x == code || x == 4 && code/100 == 4 {
			return code, m
		}
	}
	w.c.Failf("%s answers %d, expected %v: %s", r, code, codes, ref.JSON(m))
	return 0, nil
}

func content(t gen.T, g schema.GroupVersionKind, ns, name string) M {
	md := M{"name": name, "namespace": ns}
	if gen.Prob(t, 10, "labels") {
		l := M{}
		for _, k := range []string{"app", "tier", "l1", "l2"} {
			if gen.Bool(t, "has") {
				l[k] = gen.Pick(t, "lv", "x", "y", "z", "")
			}
		}
		if len(l) > 0 {
			md["labels"] = l
		}
	}
	if gen.Prob(t, 3, "annotations") {
		md["annotations"] = M{"note": gen.Str(t)}
	}
	o := M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": md, "spec": gen.Doc(t, 2)}
	if gen.Bool(t, "more") {
		o[gen.Pick(t, "top", "status", "data", "extra")] = gen.Doc(t, 2)
	}
	if gen.Prob(t, 3, "conds") {
		cs := L{}
		for i, n := 0, gen.Int(t, 0, 5, "nconds"); i < n; i++ {
			cs = append(cs, M{"type": gen.Pick(t, "ct", "Ready", "Available", "Progressing", "Degraded", "Other", "Synced"), "status": gen.Pick(t, "cs", "True", "False", "Unknown")})
		}
		o["status"] = M{"conditions": cs}
	}
	return o
}

func conditions(m M) string {
	st, _ := m["status"].(M)
	cs, _ := st["conditions"].(L)
	prio := map[string]int{"Ready": 1, "Available": 2, "Progressing": 3, "Degraded": 4}
	type pair struct {
		p int
		s string
	}
	ps := []pair{}
	for _, c := range cs {
		cm, ok := c.(M)
		if !ok {
			continue
		}
		ty, ok1 := cm["type"].(string)
		ss, ok2 := cm["status"].(string)
		if !ok1 || !ok2 {
			continue
		}
		p := prio[ty]
		if p == 0 {
			p = 9
		}
		ps = append(ps, pair{p, ty + ":" + ss})
	}
	sort.SliceStable(ps, func(i, j int) bool { return ps[i].p < ps[j].p })
	if len(ps) == 0 {
		return "<none>"
	}
	r := []string{}
	for i := 0; i < len(ps) && i < 3; i++ {
		r = append(r, ps[i].s)
	}
	s := strings.Join(r, ",")
	if len(ps) > 3 {
		s += fmt.Sprintf(" +%d more", len(ps)-3)
	}
	return s
}

// row compares a row of a table with an object.
func row(cells L, m M) string {
	if len(cells) != 5 {
		return fmt.Sprintf("%d cells", len(cells))
	}
	ann := "<none>"
	if a, _ := meta(m)["annotations"].(M); len(a) > 0 {
		ann = fmt.Sprint(len(a))
	}
	if cells[0] != meta(m)["namespace"] || cells[1] != meta(m)["name"] || cells[2] != conditions(m) || fmt.Sprint(cells[4]) != ann {
		return fmt.Sprintf("row %s, expected conditions %q annotations %s", ref.JSON(cells), conditions(m), ann)
	}
	ls := labelsOf(m)
	got, _ := cells[3].(string)
	if len(ls) == 0 {
		if got != "<none>" {
			return "labels " + got
		}
		return ""
	}
	n := len(ls)
	if n > 3 {
		suffix := fmt.Sprintf(" +%d more", n-3)
		if !strings.HasSuffix(got, suffix) {
			return "labels " + got
		}
		got, n = strings.TrimSuffix(got, suffix), 3
	}
	ps := strings.Split(got, ",")
	distinct := map[string]bool{}
	for _, p := range ps {
		k, v, _ := strings.Cut(p, "=")
		if x, ok := ls[k]; !ok || x != v {
			return "labels " + got
		}
		distinct[k] = true
	}
	if len(distinct) != n || len(ps) != n {
		return "labels " + got
	}
	return ""
}

func (w *world) verify() {
	for _, g := range w.gs {
		l := &unstructured.UnstructuredList{}
		l.SetGroupVersionKind(schema.GroupVersionKind{Group: g.Group, Version: g.Version, Kind: g.Kind + "List"})
		if err := w.s.API.Client.List(ctx, l); err != nil {
			w.c.Failf("listing the store: %v", err)
		}
		items := L{}
		for _, i := range l.Items {
			items = append(items, i.Object)
		}
		if d := w.diff(items, w.objs[g], func(M) bool { return true }); d != "" {
			w.c.Failf("store of %s: %s", g.Kind, d)
		}
	}
}

func (w *world) diff(items L, objs map[string]M, match func(M) bool) string {
	got := map[string]string{}
	for _, i := range items {
		m, ok := i.(M)
		if !ok {
			return "item " + ref.JSON(i)
		}
		k := keyOf(m)
		if _, ok := got[k]; ok {
			return k + " twice"
		}
		got[k] = js(m)
	}
	n := 0
	for k, m := range objs {
		if !match(m) {
			continue
		}
		n++
		if g, ok := got[k]; !ok {
			return k + " is missing"
		} else if g != js(m) {
			return fmt.Sprintf("%s is %s, expected %s", k, g, js(m))
		}
	}
	if n != len(got) {
		return fmt.Sprintf("%d objects, expected %d: %v", len(got), n, got)
	}
	return ""
}

func (w *world) same(what string, got, want M) {
	if js(got) != js(want) {
		w.c.Failf("%s: %s, expected %s", what, js(got), js(want))
	}
}

func (w *world) handler(g schema.GroupVersionKind) {
	o := &unstructured.Unstructured{}
	o.SetGroupVersionKind(g)
	inf, err := w.s.API.Cache.GetInformer(ctx, o)
	if err != nil {
		w.c.Failf("informer: %v", err)
	}
	s := &sub{name: "handler of the operators on " + g.Kind, g: g, match: func(M) bool { return true }, want: map[string][]token{}}
	add := func(typ string, o any) {
		if d, ok := o.(toolscache.DeletedFinalStateUnknown); ok {
			o = d.Obj
		}
		s.mu.Lock()
		defer s.mu.Unlock()
		s.seen = append(s.seen, rst.Event{Type: typ, Obj: ref.CopyMap(o.(*unstructured.Unstructured).Object)})
	}
	_, err = inf.AddEventHandler(toolscache.ResourceEventHandlerFuncs{
		AddFunc:    func(o any) { add("ADDED", o) },
		UpdateFunc: func(_, o any) { add("MODIFIED", o) },
		DeleteFunc: func(o any) { add("DELETED", o) },
	})
	if err != nil {
		w.c.Failf("handler: %v", err)
	}
	for k, m := range w.objs[g] {
		s.note(k, nil, m)
	}
	w.subs = append(w.subs, s)
}

func (w *world) step() {
	t := w.c.T
	g := gen.Pick(t, "kind", w.gs...)
	ns, name := gen.Pick(t, "ns", "ns1", "ns2"), gen.Pick(t, "name", "a", "b", "c.d")
	key := ns + "/" + name
	cur := w.objs[g][key]
	p := rst.Path(g, ns, name)
	q := url.Values{}
	dry := false
	drawDry := func() {
		if gen.Prob(t, 2, "dry") {
			dry = true
			q.Set("dryRun", "All")
			w.c.Class("dry run")
		}
	}
	apply := func(m M) {
		if !dry {
			w.set(g, key, m)
		}
	}
	switch k := gen.Int(t, 0, 24, "op"); {
	case k < 4: // POST
		drawDry()
		m := content(t, g, ns, name)
		body := ref.CopyMap(m)
		if gen.Bool(t, "nons") {
			delete(meta(body), "namespace")
		}
		switch gen.Int(t, 0, 11, "posterr") {
		case 0:
			meta(body)["namespace"] = "ns9"
			w.do(rst.Req{Method: "POST", Path: rst.Path(g, ns), Body: body, Query: q}, 4)
		case 1:
			delete(meta(body), "name")
			if gen.Bool(t, "generate") {
				meta(body)["generateName"] = "gen-"
				_, r := w.do(rst.Req{Method: "POST", Path: rst.Path(g, ns), Body: body, Query: q}, 201)
				n, _ := meta(r)["name"].(string)
				if !strings.HasPrefix(n, "gen-") || n == "gen-" || w.objs[g][ns+"/"+n] != nil {
					w.c.Failf("generated name %q", n)
				}
				meta(m)["name"], meta(m)["generateName"] = n, "gen-"
				w.same("created object", r, m)
				key = ns + "/" + n
				apply(m)
			} else {
				w.do(rst.Req{Method: "POST", Path: rst.Path(g, ns), Body: body, Query: q}, 4)
			}
		case 2:
			w.do(rst.Req{Method: "POST", Path: rst.Path(g, ns), Body: gen.Pick(t, "bad", "", "{", "[]", "xyz", `{"metadata":{"name":"a"}}`), Query: q}, 4)
		case 3:
			// the kind of the body is refused or does not matter
			body["kind"] = gen.Pick(t, "other kind", "Other", "BarItem", "Foo")
			if code, r := w.do(rst.Req{Method: "POST", Path: rst.Path(g, ns), Body: body, Query: q}, 201, 4); code == 201 {
				w.same("created object", r, m)
				apply(m)
			}
		default:
			_, r := w.do(rst.Req{Method: "POST", Path: rst.Path(g, ns), Body: body, Query: q}, 201)
			w.same("created object", r, m)
			apply(m)
		}
	case k < 6: // GET
		if gen.Prob(t, 4, "table") {
			if cur != nil {
				_, r := w.do(rst.Req{Method: "GET", Path: p, Accept: "application/json;as=Table;v=v1;g=meta.k8s.io"}, 200)
				w.table(r, map[string]M{key: cur}, func(M) bool { return true })
			}
			return
		}
		if cur == nil {
			w.do(rst.Req{Method: "GET", Path: p}, 404)
		} else {
			_, r := w.do(rst.Req{Method: "GET", Path: p}, 200)
			w.same("object read", r, cur)
		}
	case k < 9: // LIST
		s := drawSel(t)
		accept := ""
		if gen.Prob(t, 4, "table") {
			accept = "application/json;as=Table;v=v1;g=meta.k8s.io"
		}
		_, r := w.do(rst.Req{Method: "GET", Path: rst.Path(g, s.ns), Query: s.query(), Accept: accept}, 200)
		if accept != "" {
			w.table(r, w.objs[g], s.match)
			return
		}
		items, ok := r["items"].(L)
		if !ok || r["kind"] != g.Kind+"List" || r["apiVersion"] != g.GroupVersion().String() {
			w.c.Failf("not a list of %s: %s", g.Kind, ref.JSON(r))
		}
		if d := w.diff(items, w.objs[g], s.match); d != "" {
			w.c.Failf("list %s: %s", s, d)
		}
	case k < 12: // PUT
		drawDry()
		m := content(t, g, ns, name)
		body := ref.CopyMap(m)
		if cur != nil && gen.Bool(t, "rmw") {
			_, r := w.do(rst.Req{Method: "GET", Path: p}, 200)
			body = ref.CopyMap(r)
			body["spec"], m = m["spec"], ref.CopyMap(cur)
			m["spec"] = body["spec"]
			if gen.Bool(t, "relabel") {
				meta(body)["labels"], meta(m)["labels"] = M{"app": "y"}, M{"app": "y"}
			}
		}
		switch gen.Int(t, 0, 9, "puterr") {
		case 0:
			meta(body)["name"] = "other"
			w.do(rst.Req{Method: "PUT", Path: p, Body: body, Query: q}, 4)
		case 1:
			meta(body)["namespace"] = "ns9"
			w.do(rst.Req{Method: "PUT", Path: p, Body: body, Query: q}, 4)
		case 2:
			body["kind"] = gen.Pick(t, "other kind", "Other", "BarItem", "Foo")
			if code, r := w.do(rst.Req{Method: "PUT", Path: p, Body: body, Query: q}, 200, 4); code == 200 {
				if cur == nil {
					w.c.Failf("an absent object is updated")
				}
				w.same("updated object", r, m)
				apply(m)
			}
		default:
			if cur == nil {
				w.do(rst.Req{Method: "PUT", Path: p, Body: body, Query: q}, 404)
				return
			}
			_, r := w.do(rst.Req{Method: "PUT", Path: p, Body: body, Query: q}, 200)
			w.same("updated object", r, m)
			apply(m)
		}
	case k < 15: // merge patch
		drawDry()
		patch := M{"spec": noNull(gen.Doc(t, 2))}
		if cur != nil {
			if sm, ok := cur["spec"].(M); ok {
				for _, f := range sortedKeys(sm) {
					if gen.Prob(t, 4, "del") {
						patch["spec"].(M)[f] = nil
					}
				}
			}
		}
		if gen.Prob(t, 4, "plabels") {
			patch["metadata"] = M{"labels": M{"app": gen.Pick[any](t, "pl", "x", "y", nil)}}
		}
		if gen.Prob(t, 2, "pstatus") {
			patch["status"] = gen.Pick[any](t, "ps", nil, M{"ok": true})
		}
		r := rst.Req{Method: "PATCH", Path: p, Body: patch, Query: q, Type: "application/merge-patch+json"}
		if gen.Prob(t, 1, "identity") {
			patch["metadata"] = M{gen.Pick(t, "id", "name", "namespace"): "other"}
			w.do(r, 4)
			return
		}
		if cur == nil {
			w.do(r, 404)
			return
		}
		m := mergePatch(cur, patch).(M)
		_, res := w.do(r, 200)
		w.same("patched object", res, m)
		apply(m)
	case k < 17: // JSON patch
		drawDry()
		var m M
		ok := cur != nil
		if ok {
			m = ref.CopyMap(cur)
			if _, is := m["spec"].(M); !is {
				return
			}
		}
		ops := L{}
		for i, n := 0, gen.Int(t, 1, 3, "ops"); i < n; i++ {
			f := gen.Pick(t, "field", "a", "b", "c", "zz")
			v := noNull(gen.Value(t, 1))
			op := gen.Pick(t, "jop", "add", "add", "replace", "remove", "test")
			if v == nil && op != "remove" {
				v = int64(1)
			}
			if op == "test" && ok && gen.Bool(t, "holds") {
				if x, has := m["spec"].(M)[f]; has && x != nil {
					v = x
				}
			}
			if x, has := specOf(m)[f]; op == "test" && has && ref.JSON(noNull(x)) != ref.JSON(x) {
				op = "add" // the library panics on nulls
			}
			if op == "replace" && ok {
				if _, has := m["spec"].(M)[f]; !has {
					op = "add" // the library adds in this case
				}
			}
			o := M{"op": op, "path": "/spec/" + f}
			if op != "remove" {
				o["value"] = v
			}
			ops = append(ops, o)
			if !ok {
				continue
			}
			sm := m["spec"].(M)
			x, has := sm[f]
			switch op {
			case "add":
				sm[f] = v
			case "replace":
				if ok = has; ok {
					sm[f] = v
				}
			case "remove":
				ok = has
				delete(sm, f)
			case "test":
				ok = has && ref.JSON(x) == ref.JSON(v)
			}
		}
		r := rst.Req{Method: "PATCH", Path: p, Body: ops, Query: q, Type: "application/json-patch+json"}
		switch {
		case cur == nil:
			w.do(r, 404)
		case !ok:
			w.do(r, 4)
		default:
			_, res := w.do(r, 200)
			w.same("patched object", res, m)
			apply(m)
		}
	case k < 18: // apply
		drawDry()
		w.mgr++
		q.Set("fieldManager", fmt.Sprintf("m%d", w.mgr))
		q.Set("force", "true")
		body := M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": M{"name": name, "namespace": ns, "labels": M{"tier": gen.Pick(t, "tier", "x", "y")}},
			"spec": M{gen.Pick(t, "af", "a", "b", "q"): gen.Pick[any](t, "av", int64(1), "s", true)}}
		m, code := body, 201
		if cur != nil {
			for f, v := range body["spec"].(M) {
				if sm, ok := cur["spec"].(M); !ok || sm[f] == nil || ref.JSON(sm[f]) != ref.JSON(v) {
					if _, isMap := sm[f].(M); isMap || !ok {
						return // replacing a map by a scalar
					}
				}
			}
			m, code = graft(cur, body), 200
		}
		_, r := w.do(rst.Req{Method: "PATCH", Path: p, Body: body, Query: q, Type: "application/apply-patch+yaml"}, code)
		w.same("applied object", r, m)
		apply(m)
		w.c.Class("server-side apply")
	case k < 20: // DELETE
		drawDry()
		var body any
		if gen.Prob(t, 5, "precondition") && cur != nil {
			_, r := w.do(rst.Req{Method: "GET", Path: p}, 200)
			uid := meta(r)["uid"]
			good := gen.Bool(t, "good")
			if !good {
				uid = "00000000-0000-0000-0000-000000000000"
			}
			body = M{"kind": "DeleteOptions", "apiVersion": "v1", "preconditions": M{"uid": uid}}
			if dry {
				body.(M)["dryRun"] = L{"All"}
				q = url.Values{}
			}
			w.c.Class("precondition")
			if !good {
				w.do(rst.Req{Method: "DELETE", Path: p, Query: q, Body: body}, 409)
				return
			}
		}
		if cur == nil {
			w.do(rst.Req{Method: "DELETE", Path: p, Query: q, Body: body}, 404)
			return
		}
		w.do(rst.Req{Method: "DELETE", Path: p, Query: q, Body: body}, 200)
		apply(nil)
	case k == 20: // deletecollection
		drawDry()
		s := drawSel(t)
		if s.ns == "" {
			s.ns = ns
			inner := s.match
			s.match = func(m M) bool { return meta(m)["namespace"] == ns && inner(m) }
		}
		q := s.query()
		if dry {
			q.Set("dryRun", "All")
		}
		w.do(rst.Req{Method: "DELETE", Path: rst.Path(g, s.ns), Query: q}, 200)
		for _, k := range sortedKeys(w.objs[g]) {
			if s.match(w.objs[g][k]) {
				key = k
				apply(nil)
			}
		}
	case k == 21 && len(w.subs) < 8: // watch
		s := drawSel(t)
		x := &sub{name: "watch " + g.Kind + s.String(), g: g, match: s.match, want: map[string][]token{}}
		w.c.Step("%s", x.name)
		var code int
		var err error
		x.watch, code, err = w.s.Watch(rst.Req{Method: "GET", Path: rst.Path(g, s.ns), Query: s.query()})
		if err != nil || code != 200 {
			w.c.Failf("%s: %d %v", x.name, code, err)
		}
		for k, m := range w.objs[g] {
			x.note(k, nil, m)
		}
		w.subs = append(w.subs, x)
		w.c.Class("watch")
	case k == 22: // never registered
		u := g
		u.Kind = "Nope"
		w.do(rst.Req{Method: gen.Pick(t, "m", "GET", "DELETE"), Path: rst.Path(u, ns, name)}, 4)
	default: // an operator changes the store
		m := content(t, g, ns, name)
		w.c.Step("store change of %s %s: %s", g.Kind, key, ref.JSON(m))
		c := w.s.API.Client
		var err error
		switch gen.Int(t, 0, 3, "direct") {
		case 0:
			err = c.Create(ctx, gen.Obj(ref.CopyMap(m)))
		case 1:
			err = c.Update(ctx, gen.Obj(ref.CopyMap(m)))
			if cur == nil {
				if !apierrors.IsNotFound(err) {
					w.c.Failf("update of an absent object: %v", err)
				}
				return
			}
		case 2:
			if cur == nil {
				return
			}
			patch := M{"spec": M{"direct": int64(gen.Int(t, 0, 3, "dv"))}}
			err = c.Patch(ctx, gen.Obj(ref.CopyMap(m)), client.RawPatch(types.MergePatchType, []byte(ref.JSON(patch))))
			m = mergePatch(cur, patch).(M)
		case 3:
			err = c.Delete(ctx, gen.Obj(ref.CopyMap(m)))
			if cur == nil {
				return
			}
			m = nil
		}
		if err != nil {
			w.c.Failf("store change: %v", err)
		}
		w.c.Class("store changed directly")
		w.set(g, key, m)
	}
}

func (w *world) table(r M, objs map[string]M, match func(M) bool) {
	rows, _ := r["rows"].(L)
	if r["kind"] != "Table" {
		w.c.Failf("not a table: %s", ref.JSON(r))
	}
	w.c.Class("table")
	n := 0
	for _, m := range objs {
		if match(m) {
			n++
		}
	}
	if n != len(rows) {
		w.c.Failf("table of %d rows, expected %d: %s", len(rows), n, ref.JSON(r))
	}
	seen := map[string]bool{}
	for _, x := range rows {
		cells, _ := x.(M)["cells"].(L)
		if len(cells) < 2 {
			w.c.Failf("row %s", ref.JSON(x))
		}
		k := fmt.Sprintf("%v/%v", cells[0], cells[1])
		m := objs[k]
		if m == nil || !match(m) || seen[k] {
			w.c.Failf("row of %s in %s", k, ref.JSON(r))
		}
		seen[k] = true
		if d := row(cells, m); d != "" {
			w.c.Failf("table: %s of %s", d, js(m))
		}
	}
}

func sortedKeys[V any](m map[string]V) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// TestREST: sequences of calls.
func TestREST(t *testing.T) {
	hx.Check(t, "sequences of 12 to 60 steps on two kinds of views of an operator and one of another, two namespaces and three names: HTTP create (with and without names, wrong namespaces, malformed bodies), read, list by label and field selectors in one or all namespaces (objects and tables), replace, JSON merge patch, JSON patch, server-side apply, delete with preconditions, delete of collections, dry runs, watches, and changes made by operators through the client of the store; every response and, after each step, the store equal a map of the objects; watches and handlers of the operators report exactly the changes; non-trivial: an object was changed through HTTP and directly and a watch was open",
		hx.Scale(1200, 40000), func(c *hx.Case) {
			s, err := rst.Shared()
			if err != nil {
				c.Failf("no server: %v", err)
			}
			op, op2 := rst.Operator(), rst.Operator()
			w := &world{c: c, s: s, gs: []schema.GroupVersionKind{rst.Kind(op, "Foo"), rst.Kind(op, "BarItem"), rst.Kind(op2, "Foo")}, objs: map[schema.GroupVersionKind]map[string]M{}}
			for _, g := range w.gs {
				w.objs[g] = map[string]M{}
			}
			if err := s.S.RegisterGVKs(w.gs); err != nil {
				c.Failf("registration: %v", err)
			}
			defer s.S.UnregisterGVKs(w.gs)
			defer func() {
				for _, x := range w.subs {
					if x.watch != nil {
						x.watch.Close()
					}
				}
			}()
			for _, g := range w.gs[:gen.Int(c.T, 0, 2, "handlers")] {
				w.handler(g)
			}
			for i, n := 0, gen.Int(c.T, 12, 60, "steps"); i < n; i++ {
				w.step()
				w.verify()
			}
			changes := 0
			for _, x := range w.subs {
				for _, l := range x.want {
					changes += len(l)
				}
			}
			c.NonTrivial(len(w.subs) > 0 && changes > 2)
			if d := hx.Eventually(20*time.Second, func() string {
				for _, x := range w.subs {
					if d := x.check(); d != "" {
						return d
					}
				}
				return ""
			}); d != "" {
				c.Failf("%s", d)
			}
		})
}

// TestConcurrent: concurrent writers of one object.
func TestConcurrent(t *testing.T) {
	hx.Check(t, "2 to 6 concurrent writers of one object: HTTP merge patches of own fields, JSON patches that increment a counter if it still has the value read, and changes by an operator of own fields of the object through the client of the store, with a watch open; every acknowledged change is in the final object, the counter equals the number of acknowledged increments and the watch ends with the final object; every case is non-trivial",
		hx.Scale(300, 6000), func(c *hx.Case) {
			s, err := rst.Shared()
			if err != nil {
				c.Failf("no server: %v", err)
			}
			g := rst.Kind(rst.Operator(), "Foo")
			if err := s.S.RegisterGVKs([]schema.GroupVersionKind{g}); err != nil {
				c.Failf("registration: %v", err)
			}
			defer s.S.UnregisterGVKs([]schema.GroupVersionKind{g})
			m := M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": M{"name": "a", "namespace": "ns"}, "spec": M{"count": int64(0)}}
			if code, r, err := s.Do(rst.Req{Method: "POST", Path: rst.Path(g, "ns"), Body: m}); err != nil || code != 201 {
				c.Failf("create: %d %v %v", code, r, err)
			}
			wt, code, err := s.Watch(rst.Req{Method: "GET", Path: rst.Path(g, "")})
			if err != nil || code != 200 {
				c.Failf("watch: %d %v", code, err)
			}
			defer wt.Close()
			n := gen.Int(c.T, 2, 6, "writers")
			kinds, counts := []int{}, []int{}
			for i := 0; i < n; i++ {
				kinds = append(kinds, gen.Int(c.T, 0, 2, "kind"))
				counts = append(counts, gen.Int(c.T, 3, 15, "count"))
				c.Step("writer %d: %s, %d times", i, []string{"merge patch", "increment", "store"}[kinds[i]], counts[i])
			}
			c.NonTrivial(true)
			p := rst.Path(g, "ns", "a")
			errs := make([]string, n)
			incs := make([]int, n)
			var wg sync.WaitGroup
			for i := 0; i < n; i++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for j := 1; j <= counts[i]; j++ {
						patch := M{"spec": M{fmt.Sprintf("w%d", i): int64(j), fmt.Sprintf("w%d-%d", i, j): true}}
						switch kinds[i] {
						case 0:
							code, r, err := s.Do(rst.Req{Method: "PATCH", Path: p, Body: patch, Type: "application/merge-patch+json"})
							if err != nil || code != 200 {
								errs[i] = fmt.Sprintf("merge patch: %d %v %v", code, err, r)
								return
							}
						case 1:
							_, r, err := s.Do(rst.Req{Method: "GET", Path: p})
							if err != nil {
								errs[i] = err.Error()
								return
							}
							x, _ := r["spec"].(M)["count"].(int64)
							code, r, err := s.Do(rst.Req{Method: "PATCH", Path: p, Type: "application/json-patch+json",
								Body: L{M{"op": "test", "path": "/spec/count", "value": x}, M{"op": "replace", "path": "/spec/count", "value": x + 1}}})
							if err != nil || code != 200 && code/100 != 4 {
								errs[i] = fmt.Sprintf("JSON patch: %d %v %v", code, err, r)
								return
							}
							if code == 200 {
								incs[i]++
							}
						case 2:
							if err := s.API.Client.Patch(ctx, gen.Obj(ref.CopyMap(m)), client.RawPatch(types.MergePatchType, []byte(ref.JSON(patch)))); err != nil {
								errs[i] = err.Error()
								return
							}
						}
					}
				}()
			}
			c.MustReturn("concurrent writers", 120*time.Second, wg.Wait)
			total := 0
			want := M{}
			for i := range errs {
				if errs[i] != "" {
					c.Failf("writer %d: %s", i, errs[i])
				}
				total += incs[i]
				if kinds[i] != 1 {
					want[fmt.Sprintf("w%d", i)] = int64(counts[i])
					for j := 1; j <= counts[i]; j++ {
						want[fmt.Sprintf("w%d-%d", i, j)] = true
					}
				}
			}
			want["count"] = int64(total)
			_, r, err := s.Do(rst.Req{Method: "GET", Path: p})
			if err != nil {
				c.Failf("read: %v", err)
			}
			got, _ := r["spec"].(M)
			if ref.JSON(got) != ref.JSON(want) {
				lost := []string{}
				for _, k := range sortedKeys(want) {
					if ref.JSON(got[k]) != ref.JSON(want[k]) {
						lost = append(lost, fmt.Sprintf("%s is %s, expected %s", k, ref.JSON(got[k]), ref.JSON(want[k])))
					}
				}
				c.Failf("acknowledged changes are lost: %s", strings.Join(lost, "; "))
			}
			if d := hx.Eventually(20*time.Second, func() string {
				evs, _ := wt.Events()
				if len(evs) == 0 || js(evs[len(evs)-1].Obj) != js(r) {
					return fmt.Sprintf("the last of %d events of the watch is not the final object", len(evs))
				}
				return ""
			}); d != "" {
				c.Failf("%s", d)
			}
		})
}
