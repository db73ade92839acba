package c23

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/rst"

	"k8s.io/apimachinery/pkg/runtime/schema"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
)

type M = gen.M
type L = gen.L

type GVK = schema.GroupVersionKind

const version = "v1alpha1"

var kinds = []string{"Foo", "FooBar", "Foos", "Bar"}

var natives = []GVK{
	{Group: "", Version: "v1", Kind: "Pod"},
	{Group: "", Version: "v1", Kind: "Service"},
	{Group: "apps", Version: "v1", Kind: "Deployment"},
	{Group: "apps", Version: "v1alpha1", Kind: "Foo"},
	{Group: "dcontroller.io", Version: "v1alpha1", Kind: "Operator"},
	{Group: "gateway.networking.k8s.io", Version: "v1", Kind: "Gateway"},
	{Group: "xview.dcontroller.io", Version: "v1alpha1", Kind: "Foo"},
	{Group: "view.dcontroller.io.example.com", Version: "v1alpha1", Kind: "Foo"},
}

func isView(g GVK) bool {
	return (g.Group == "view.dcontroller.io" || strings.HasSuffix(g.Group, ".view.dcontroller.io")) && g.Version == version
}

// model is the set of the registered views.
type model map[string]map[string]bool

func (m model) set(group string, gvks []GVK) {
	ks := map[string]bool{}
	for _, g := range gvks {
		if g.Group == group && isView(g) {
			ks[g.Kind] = true
		}
	}
	if len(ks) == 0 {
		delete(m, group)
		return
	}
	m[group] = ks
}

func keys[V any](m map[string]V) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func str(v any) string { s, _ := v.(string); return s }

func list(v any) []M {
	r := []M{}
	l, _ := v.(L)
	for _, e := range l {
		if m, ok := e.(M); ok {
			r = append(r, m)
		}
	}
	return r
}

func at(m M, path ...string) any {
	var v any = m
	for _, p := range path {
		x, ok := v.(M)
		if !ok {
			return nil
		}
		v = x[p]
	}
	return v
}

func get(s *rst.Server, path, accept string) (int, M, error) {
	return s.Do(rst.Req{Method: "GET", Path: path, Accept: accept})
}

const aggregated = "application/json;g=apidiscovery.k8s.io;v=v2;as=APIGroupDiscoveryList"

var wantVerbs = []string{"create", "delete", "get", "list", "patch", "update", "watch"}

func verbsOK(v any) bool {
	have := map[string]bool{}
	l, _ := v.(L)
	for _, e := range l {
		have[str(e)] = true
	}
	for _, w := range wantVerbs {
		if !have[w] {
			return false
		}
	}
	return true
}

// discovery compares the discovery documents with the model. groups are the ones that may be
// registered, whole tells that no other group may be.
func discovery(s *rst.Server, m model, groups []string, whole bool) string {
	mine := map[string]bool{}
	for _, g := range groups {
		mine[g] = true
	}
	// the list of groups
	code, r, err := get(s, "/apis", "")
	if err != nil || code != 200 {
		return fmt.Sprintf("GET /apis: %d %v", code, err)
	}
	have := []string{}
	for _, g := range list(r["groups"]) {
		n := str(g["name"])
		if !whole && !mine[n] {
			continue
		}
		have = append(have, n)
		vs := []string{}
		for _, v := range list(g["versions"]) {
			vs = append(vs, str(v["groupVersion"]))
		}
		if fmt.Sprint(vs) != fmt.Sprint([]string{n + "/" + version}) || str(at(g, "preferredVersion", "groupVersion")) != n+"/"+version {
			return fmt.Sprintf("GET /apis: versions of %s: %v", n, g)
		}
	}
	sort.Strings(have)
	if want := keys(m); fmt.Sprint(have) != fmt.Sprint(want) {
		return fmt.Sprintf("GET /apis lists %v, registered: %v", have, want)
	}
	// aggregated discovery
	code, r, err = get(s, "/apis", aggregated)
	if err != nil || code != 200 {
		return fmt.Sprintf("aggregated discovery: %d %v", code, err)
	}
	if str(r["kind"]) != "APIGroupDiscoveryList" {
		return fmt.Sprintf("aggregated discovery returns a %v", r["kind"])
	}
	have = []string{}
	for _, i := range list(r["items"]) {
		n := str(at(i, "metadata", "name"))
		if !whole && !mine[n] {
			continue
		}
		have = append(have, n)
		vs := list(i["versions"])
		if len(vs) != 1 || str(vs[0]["version"]) != version {
			return fmt.Sprintf("aggregated discovery: versions of %s: %v", n, vs)
		}
		ks := []string{}
		for _, x := range list(vs[0]["resources"]) {
			k := str(at(x, "responseKind", "kind"))
			ks = append(ks, k)
			if str(x["resource"]) != strings.ToLower(k) || str(x["scope"]) != "Namespaced" || str(at(x, "responseKind", "group")) != n || str(at(x, "responseKind", "version")) != version || !verbsOK(x["verbs"]) {
				return fmt.Sprintf("aggregated discovery of %s: %v", n, x)
			}
		}
		sort.Strings(ks)
		if fmt.Sprint(ks) != fmt.Sprint(keys(m[n])) {
			return fmt.Sprintf("aggregated discovery of %s lists %v, registered: %v", n, ks, keys(m[n]))
		}
	}
	sort.Strings(have)
	if want := keys(m); fmt.Sprint(have) != fmt.Sprint(want) {
		return fmt.Sprintf("aggregated discovery lists %v, registered: %v", have, want)
	}
	// groups and versions
	for _, g := range groups {
		code, r, err := get(s, "/apis/"+g, "")
		if err != nil {
			return err.Error()
		}
		code2, r2, err := get(s, "/apis/"+g+"/"+version, "")
		if err != nil {
			return err.Error()
		}
		if m[g] == nil {
			if code < 400 || code > 499 || code2 < 400 || code2 > 499 {
				return fmt.Sprintf("group %s is not registered: %d %v and %d %v", g, code, r, code2, r2)
			}
			continue
		}
		if code != 200 || str(r["kind"]) != "APIGroup" || str(r["name"]) != g || len(list(r["versions"])) != 1 || str(list(r["versions"])[0]["groupVersion"]) != g+"/"+version || str(at(r, "preferredVersion", "version")) != version {
			return fmt.Sprintf("GET /apis/%s: %d %v", g, code, r)
		}
		if code2 != 200 || str(r2["kind"]) != "APIResourceList" || str(r2["groupVersion"]) != g+"/"+version {
			return fmt.Sprintf("GET /apis/%s/%s: %d %v", g, version, code2, r2)
		}
		ks := []string{}
		for _, x := range list(r2["resources"]) {
			k := str(x["kind"])
			ks = append(ks, k)
			if str(x["name"]) != strings.ToLower(k) || x["namespaced"] != true || !verbsOK(x["verbs"]) {
				return fmt.Sprintf("GET /apis/%s/%s: resource %v", g, version, x)
			}
		}
		sort.Strings(ks)
		if fmt.Sprint(ks) != fmt.Sprint(keys(m[g])) {
			return fmt.Sprintf("GET /apis/%s/%s lists %v, registered: %v", g, version, ks, keys(m[g]))
		}
	}
	return ""
}

func pick[V any](c *hx.Case, vs []V, name string) V {
	return vs[gen.Int(c.T, 0, len(vs)-1, name)]
}

func chance(c *hx.Case, percent int, name string) bool {
	return gen.Int(c.T, 1, 100, name) > 100-percent
}

func weighted(c *hx.Case, name string, ws ...int) int {
	sum := 0
	for _, w := range ws {
		sum += w
	}
	x := gen.Int(c.T, 0, sum-1, name)
	for i, w := range ws {
		if x < w {
			return i
		}
		x -= w
	}
	return 0
}

type world struct {
	c      *hx.Case
	s      *rst.Server
	m      model
	groups []string
	data   map[GVK]map[string]bool
	ever   map[string]bool
	n      int
}

func (w *world) gvk(g, k string) GVK { return GVK{Group: g, Version: version, Kind: k} }

// serving checks that exactly the paths of registered views work.
func (w *world) serving() string {
	for _, g := range w.groups {
		for _, k := range kinds {
			v := w.gvk(g, k)
			code, r, err := get(w.s, rst.Path(v, "ns"), "")
			if err != nil {
				return err.Error()
			}
			if !w.m[g][k] {
				if code < 400 || code > 499 {
					return fmt.Sprintf("%s is not registered but the list of its objects is: %d %v", v, code, r)
				}
				continue
			}
			names := []string{}
			for _, i := range list(r["items"]) {
				names = append(names, str(at(i, "metadata", "name")))
			}
			sort.Strings(names)
			if code != 200 || str(r["kind"]) != k+"List" || str(r["apiVersion"]) != g+"/"+version || fmt.Sprint(names) != fmt.Sprint(keys(w.data[v])) {
				return fmt.Sprintf("%s is registered and has objects %v but the list of its objects is: %d %v %v %v", v, keys(w.data[v]), code, r["apiVersion"], r["kind"], names)
			}
		}
	}
	return ""
}

// write tries to create or delete an object.
func (w *world) write() {
	g := pick(w.c, w.groups, "group")
	k := pick(w.c, kinds, "kind")
	v := w.gvk(g, k)
	name := pick(w.c, []string{"a", "b"}, "name")
	if w.data[v][name] && chance(w.c, 50, "delete") {
		code, r, err := w.s.Do(rst.Req{Method: "DELETE", Path: rst.Path(v, "ns", name)})
		w.c.Step("delete %s %s: %d", v, name, code)
		if err != nil || w.m[g][k] && code != 200 || !w.m[g][k] && (code < 400 || code > 499) {
			w.c.Failf("delete of %s %s (registered: %v): %d %v %v", v, name, w.m[g][k], code, r, err)
		}
		if w.m[g][k] {
			delete(w.data[v], name)
		}
		return
	}
	code, r, err := w.s.Do(rst.Req{Method: "POST", Path: rst.Path(v, "ns"), Body: M{"apiVersion": g + "/" + version, "kind": k, "metadata": M{"name": name, "namespace": "ns"}, "spec": M{"x": int64(1)}}})
	w.c.Step("create %s %s: %d", v, name, code)
	if err != nil || w.m[g][k] && code != 201 || !w.m[g][k] && (code < 400 || code > 499) {
		w.c.Failf("create of %s %s (registered: %v): %d %v %v", v, name, w.m[g][k], code, r, err)
	}
	if w.m[g][k] {
		if w.data[v] == nil {
			w.data[v] = map[string]bool{}
		}
		w.data[v][name] = true
	}
}

func (w *world) gvks(groups []string) []GVK {
	r := []GVK{}
	for _, g := range groups {
		for _, k := range kinds {
			if chance(w.c, 50, "register") {
				r = append(r, w.gvk(g, k))
			}
		}
	}
	if len(r) > 0 && chance(w.c, 20, "duplicate") {
		w.c.Class("duplicates")
		r = append(r, pick(w.c, r, "which"))
	}
	return r
}

func (w *world) register() {
	if chance(w.c, 30, "group") {
		g := pick(w.c, w.groups, "group")
		gvks := w.gvks([]string{g})
		w.c.Step("RegisterAPIGroup %s %v", g, gvks)
		if len(gvks) == 0 {
			w.c.Class("empty list")
		}
		if err := w.s.S.RegisterAPIGroup(g, gvks); err != nil {
			w.c.Failf("RegisterAPIGroup: %v", err)
		}
		w.note(g)
		w.m.set(g, gvks)
		return
	}
	gs := []string{}
	for _, g := range w.groups {
		if chance(w.c, 50, "group") {
			gs = append(gs, g)
		}
	}
	gvks := w.gvks(gs)
	if chance(w.c, 40, "other") {
		w.c.Class("native types or other versions")
		for i, n := 0, gen.Int(w.c.T, 1, 2, "natives"); i < n; i++ {
			x := pick(w.c, natives, "native")
			if chance(w.c, 30, "other version") {
				x = GVK{Group: pick(w.c, w.groups, "group"), Version: pick(w.c, []string{"v1", "v1beta1", "v2"}, "version"), Kind: pick(w.c, kinds, "kind")}
			}
			at := gen.Int(w.c.T, 0, len(gvks), "at")
			gvks = append(gvks[:at:at], append([]GVK{x}, gvks[at:]...)...)
		}
	}
	w.c.Step("RegisterGVKs %v", gvks)
	seen := map[string]bool{}
	for _, g := range gvks {
		seen[g.Group] = true
	}
	for g := range seen {
		if viewv1a1.IsViewGroup(g) {
			w.note(g)
			w.m.set(g, gvks)
		}
	}
	// a registration of a native type may be refused with an error
	if err := w.s.S.RegisterGVKs(gvks); err != nil {
		all := true
		for _, g := range gvks {
			all = all && isView(g)
		}
		if all {
			w.c.Failf("RegisterGVKs: %v", err)
		}
		w.c.Failf("RegisterGVKs of a list with native types: %v", err)
	}
}

func (w *world) note(g string) {
	if w.m[g] != nil {
		w.c.Class("registered again")
		w.n++
	} else if w.ever[g] {
		w.c.Class("restored")
		w.n++
	}
	w.ever[g] = true
}

func (w *world) unregister() {
	g := pick(w.c, w.groups, "group")
	if w.m[g] != nil {
		w.n++
	}
	if chance(w.c, 50, "by group") {
		w.c.Step("UnregisterAPIGroup %s", g)
		w.s.S.UnregisterAPIGroup(g)
		delete(w.m, g)
		return
	}
	gvks := []GVK{}
	for _, h := range append([]string{g}, w.groups...) {
		if h != g && !chance(w.c, 25, "group too") {
			continue
		}
		for _, k := range keys(w.m[h]) {
			gvks = append(gvks, w.gvk(h, k))
		}
		delete(w.m, h)
	}
	if chance(w.c, 30, "native") {
		gvks = append(gvks, pick(w.c, natives, "native"))
	}
	w.c.Step("UnregisterGVKs %v", gvks)
	w.s.S.UnregisterGVKs(gvks)
}

func (w *world) strange() {
	p := pick(w.c, []string{
		"/apis/" + w.groups[0] + "/v1", "/apis/" + w.groups[0] + "/v1/namespaces/ns/foo", "/apis/" + w.groups[0] + "/" + version + "/namespaces/ns/nosuch",
		"/apis/nosuch.view.dcontroller.io", "/apis/nosuch.view.dcontroller.io/" + version, "/apis/nosuch.view.dcontroller.io/" + version + "/namespaces/ns/foo/a",
		"/apis/apps", "/apis/apps/v1", "/apis/apps/v1/namespaces/ns/deployments", "/apis/apps/v1alpha1/namespaces/ns/foo", "/api/v1/namespaces/ns/pods", "/api/v1/namespaces/ns/pod", "/api/v1/pod",
		"/apis/dcontroller.io/v1alpha1/operator", "/apis/xview.dcontroller.io/v1alpha1/foo", "/apis/view.dcontroller.io.example.com/v1alpha1/namespaces/ns/foo", "/apis/" + w.groups[0] + "/" + version + "/foolist", "/apis/" + w.groups[0] + "/" + version + "/" + "namespaces/ns/fooList",
	}, "path")
	code, r, err := get(w.s, p, "")
	w.c.Step("GET %s: %d", p, code)
	if err != nil || code < 400 || code > 499 {
		w.c.Failf("GET %s: %d %v %v", p, code, r, err)
	}
}

func newWorld(c *hx.Case, s *rst.Server) *world {
	op := rst.Operator()
	w := &world{c: c, s: s, m: model{}, data: map[GVK]map[string]bool{}, ever: map[string]bool{}}
	// names that contain each other
	for _, o := range []string{op, "x." + op, op + "-b", op + ".view"}[:gen.Int(c.T, 2, 4, "groups")] {
		w.groups = append(w.groups, o+".view.dcontroller.io")
	}
	return w
}

func (w *world) step() {
	switch weighted(w.c, "op", 8, 5, 4, 2) {
	case 0:
		w.register()
	case 1:
		w.unregister()
	case 2:
		w.write()
	case 3:
		w.strange()
	}
}

func (w *world) verify() {
	if d := discovery(w.s, w.m, w.groups, true); d != "" {
		w.c.Failf("%s", d)
	}
	if d := w.serving(); d != "" {
		w.c.Failf("%s", d)
	}
}

func TestHistories(t *testing.T) {
	hx.Check(t, "sequences of 4 to 14 registrations (by group or of lists of several groups, with duplicates, native types, other versions and empty lists; for new and already registered groups), unregistrations, writes of objects and requests for other paths, over 2 to 4 groups with names that contain each other and 4 kinds each; after each step all of discovery (groups, versions, resources, aggregated) and the answers of the paths of all views equal the model; non-trivial: groups were unregistered or registered again at least twice",
		hx.Scale(600, 20000), func(c *hx.Case) {
			s, err := rst.Shared()
			if err != nil {
				c.Failf("no server: %v", err)
			}
			w := newWorld(c, s)
			defer func() {
				for _, g := range w.groups {
					s.S.UnregisterAPIGroup(g)
				}
			}()
			for i, n := 0, gen.Int(c.T, 4, 14, "steps"); i < n; i++ {
				w.step()
				w.verify()
			}
			c.NonTrivial(w.n >= 2)
		})
}

func TestBeforeStart(t *testing.T) {
	hx.Check(t, "a new server with 1 to 4 registrations and unregistrations before it is started and 1 to 4 steps after; discovery and the paths equal the model as soon as it has started and after each later step; non-trivial: a group is registered when the server starts",
		hx.Scale(60, 1000), func(c *hx.Case) {
			s, err := rst.New(nil)
			if err != nil {
				c.Failf("no server: %v", err)
			}
			w := newWorld(c, s)
			for i, n := 0, gen.Int(c.T, 1, 4, "before"); i < n; i++ {
				if i > 0 && chance(c, 30, "unregister") {
					w.unregister()
				} else {
					w.register()
				}
			}
			c.NonTrivial(len(w.m) > 0)
			c.Step("start")
			if err := s.Start(); err != nil {
				c.Failf("start: %v", err)
			}
			w.verify()
			for i, n := 0, gen.Int(c.T, 1, 4, "steps"); i < n; i++ {
				w.step()
				w.verify()
			}
			if err := s.Stop(); err != nil {
				c.Failf("stop: %v", err)
			}
		})
}

func TestConcurrent(t *testing.T) {
	hx.Check(t, "1 to 3 goroutines that each register, register anew and unregister the views of a group of their own 5 to 25 times, while 2 to 5 clients write, read, list, apply and discover the views of another group that stays registered, and requests for the changing groups are made; the requests for the stable group always succeed, no request gets a server error, and at the end discovery and the paths equal the model; every case is non-trivial",
		hx.Scale(200, 5000), func(c *hx.Case) {
			s, err := rst.Shared()
			if err != nil {
				c.Failf("no server: %v", err)
			}
			w := newWorld(c, s)
			stable := rst.Operator() + ".view.dcontroller.io"
			defer func() {
				for _, g := range append(w.groups, stable) {
					s.S.UnregisterAPIGroup(g)
				}
			}()
			st := []GVK{w.gvk(stable, "Foo"), w.gvk(stable, "Bar")}
			if err := s.S.RegisterGVKs(st); err != nil {
				c.Failf("RegisterGVKs: %v", err)
			}
			c.NonTrivial(true)
			if len(w.groups) > 3 {
				w.groups = w.groups[:3]
			}
			type act struct {
				un, group bool
				gvks      []GVK
			}
			plans := make([][]act, len(w.groups))
			for i, g := range w.groups {
				for j, n := 0, gen.Int(c.T, 5, 25, "changes"); j < n; j++ {
					a := act{un: chance(c, 40, "unregister"), group: chance(c, 50, "by group"), gvks: w.gvks([]string{g})}
					if len(a.gvks) == 0 {
						a.gvks = []GVK{w.gvk(g, "Foo")}
					}
					plans[i] = append(plans[i], a)
					if a.un {
						delete(w.m, g)
					} else {
						w.m.set(g, a.gvks)
					}
				}
				c.Step("group %s: %d changes", g, len(plans[i]))
			}
			clients := gen.Int(c.T, 2, 5, "clients")
			c.Step("%d clients", clients)
			var stop atomic.Bool
			var mu sync.Mutex
			fail := ""
			failf := func(f string, a ...any) {
				mu.Lock()
				defer mu.Unlock()
				if fail == "" {
					fail = fmt.Sprintf(f, a...)
				}
				stop.Store(true)
			}
			var reg, cl sync.WaitGroup
			for i, g := range w.groups {
				reg.Add(1)
				go func() {
					defer reg.Done()
					last := []GVK{w.gvk(g, "Foo")}
					for _, a := range plans[i] {
						switch {
						case a.un && a.group:
							s.S.UnregisterAPIGroup(g)
						case a.un:
							s.S.UnregisterGVKs(last)
						case a.group:
							last = a.gvks
							if err := s.S.RegisterAPIGroup(g, a.gvks); err != nil {
								failf("RegisterAPIGroup: %v", err)
							}
						default:
							last = a.gvks
							if err := s.S.RegisterGVKs(a.gvks); err != nil {
								failf("RegisterGVKs: %v", err)
							}
						}
						time.Sleep(time.Duration(i) * 300 * time.Microsecond)
					}
				}()
			}
			for i := 0; i < clients; i++ {
				cl.Add(1)
				go func() {
					defer cl.Done()
					v := st[i%2]
					name := fmt.Sprintf("o%d", i)
					body := M{"apiVersion": stable + "/" + version, "kind": v.Kind, "metadata": M{"name": name, "namespace": "ns"}, "spec": M{"x": int64(1)}}
					for j := 0; !stop.Load(); j++ {
						var r rst.Req
						want := 200
						switch j % 9 {
						case 0:
							r, want = rst.Req{Method: "POST", Path: rst.Path(v, "ns"), Body: body}, 201
						case 1:
							r = rst.Req{Method: "GET", Path: rst.Path(v, "ns", name)}
						case 2:
							r = rst.Req{Method: "GET", Path: rst.Path(v, "")}
						case 3:
							r = rst.Req{Method: "PATCH", Path: rst.Path(v, "ns", name), Type: "application/merge-patch+json", Body: M{"spec": M{"y": int64(j)}}}
						case 4:
							r = rst.Req{Method: "PATCH", Path: rst.Path(v, "ns", name), Type: "application/apply-patch+yaml", Body: body, Query: map[string][]string{"fieldManager": {fmt.Sprintf("m%d", i)}, "force": {"true"}}}
						case 5:
							r = rst.Req{Method: "GET", Path: "/apis/" + stable + "/" + version}
						case 6:
							r = rst.Req{Method: "GET", Path: "/apis", Accept: []string{"", aggregated}[j%2]}
						case 7:
							r = rst.Req{Method: "DELETE", Path: rst.Path(v, "ns", name)}
						case 8:
							r, want = rst.Req{Method: "GET", Path: rst.Path(w.gvk(w.groups[j%len(w.groups)], kinds[j%len(kinds)]), "ns")}, 0
						}
						code, b, err := s.Do(r)
						if err != nil || want != 0 && code != want || code >= 500 {
							failf("%s: %d %v %v", r, code, b, err)
							return
						}
						// the stable group is always there
						switch j % 9 {
						case 5:
							if len(list(b["resources"])) != 2 {
								failf("%s: %v", r, b)
							}
						case 6:
							found := false
							for _, x := range append(list(b["groups"]), list(b["items"])...) {
								found = found || str(x["name"]) == stable || str(at(x, "metadata", "name")) == stable
							}
							if !found {
								failf("%s: group %s is missing", r, stable)
							}
						}
					}
				}()
			}
			c.MustReturn("the registrations", 120*time.Second, reg.Wait)
			stop.Store(true)
			c.MustReturn("the clients", 120*time.Second, cl.Wait)
			if fail != "" {
				c.Failf("%s", fail)
			}
			if d := discovery(s, w.m, w.groups, false); d != "" {
				c.Failf("%s", d)
			}
			if d := w.serving(); d != "" {
				c.Failf("%s", d)
			}
		})
}
