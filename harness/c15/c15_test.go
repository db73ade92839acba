package c15

import (
	"fmt"
	"sort"
	"strings"
	"testing"

	"dcverif/gen"
	"dcverif/hx"

	"k8s.io/apimachinery/pkg/api/meta"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/runtime/schema"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

type GVK = schema.GroupVersionKind

const suffix = ".view.dcontroller.io"

// label draws a DNS label that does not look like an API version.
func label(t gen.T) string {
	return gen.Pick(t, "label", "a", "b", "op", "my-op", "test", "core", "view", "x1", "dcontroller", "io", "apps", "vee", "v", "0")
}

func operator(t gen.T) string {
	ls := []string{}
	for i, n := 0, gen.Pick(t, "nlab", 1, 1, 1, 2, 2, 3); i < n; i++ {
		ls = append(ls, label(t))
	}
	// labels that look like versions are fine at the ends
	if gen.Prob(t, 2, "first") {
		ls[0] = gen.Pick(t, "vlab", "v1", "v1beta1", "v2")
	}
	if gen.Prob(t, 2, "last") {
		ls[len(ls)-1] = gen.Pick(t, "vlab", "v1", "v1alpha1", "v3")
	}
	return strings.Join(ls, ".")
}

func kind(t gen.T) string {
	return gen.Pick(t, "kind", "View", "Pod", "pod", "EndpointView", "x", "HTTPRoute", "A1", "Listener", "ListX", "Services")
}

func native(t gen.T) GVK {
	g := gen.Pick(t, "ng", "", "apps", "gateway.networking.k8s.io", "batch", "a.b", "stunner.l7mp.io", "x.view.example.com", "networking.k8s.io")
	return GVK{Group: g, Version: gen.Pick(t, "nv", "v1", "v1beta1", "v2alpha3", "v10"), Kind: kind(t)}
}

func plain(t gen.T) GVK {
	return GVK{Group: operator(t) + suffix, Version: "v1alpha1", Kind: kind(t)}
}

func TestIdentity(t *testing.T) {
	hx.Check(t, "random operator names, native groups (dotted ones included), versions and kinds: mapping to a view type and back, recognition of view types, and distinctness of the types of two draws; also groups and versions that only resemble views; non-trivial: operator or native group has several labels",
		hx.Scale(60000, 1500000), func(c *hx.Case) {
			type id struct {
				op string
				k  string
				n  GVK
			}
			draw := func() (id, GVK) {
				i := id{op: operator(c.T), k: kind(c.T)}
				if gen.Bool(c.T, "native") {
					i.n, i.k = native(c.T), ""
					return i, viewv1a1.MapIntoView(i.op, i.n)
				}
				return i, viewv1a1.GroupVersionKind(i.op, i.k)
			}
			i1, g1 := draw()
			i2, g2 := draw()
			c.Step("%+v -> %s", i1, g1)
			c.Step("%+v -> %s", i2, g2)
			c.NonTrivial(strings.Contains(i1.op, ".") || strings.Contains(i1.n.Group, "."))
			if (i1 == i2) != (g1 == g2) {
				c.Failf("identities equal: %v, view types equal: %v", i1 == i2, g1 == g2)
			}
			if !viewv1a1.IsViewKind(g1) || !viewv1a1.IsViewGroup(g1.Group) || !viewv1a1.IsViewGroupVersion(g1.GroupVersion()) {
				c.Failf("%s is not recognized as a view", g1)
			}
			if got := viewv1a1.GetOperator(g1); got != i1.op {
				c.Failf("operator of %s is %q, want %q", g1, got, i1.op)
			}
			kd := i1.k
			back, err := viewv1a1.MapFromView(g1)
			if kd == "" {
				kd = i1.n.Kind
				if err != nil || back != i1.n {
					c.Failf("%s maps back to %s (%v), want %s", g1, back, err, i1.n)
				}
			} else {
				if err == nil {
					c.Failf("%s, a plain view, maps back to the native type %s", g1, back)
				}
				if g1 != (GVK{Group: i1.op + suffix, Version: "v1alpha1", Kind: i1.k}) {
					c.Failf("unexpected view type %s", g1)
				}
				if viewv1a1.Group(i1.op) != g1.Group || viewv1a1.GroupVersion(i1.op) != g1.GroupVersion() {
					c.Failf("group or group version differs from %s", g1)
				}
			}
			if g1.Kind != kd {
				c.Failf("kind %q", g1.Kind)
			}
			if !viewv1a1.HasViewGroupVersionKind(g1.Group, g1) || viewv1a1.HasViewGroupVersionKind(g2.Group, g1) != (g1.Group == g2.Group) {
				c.Failf("membership of %s in group %s or %s is wrong", g1, g1.Group, g2.Group)
			}
			obj := object.NewViewObject(i2.op, "K")
			if object.GetOperator(obj) != i2.op {
				c.Failf("operator of a view object is %q, want %q", object.GetOperator(obj), i2.op)
			}
			// things that are not views
			no := gen.Pick(c.T, "noview", GVK{Group: i1.op + "view.dcontroller.io", Version: "v1alpha1", Kind: kd},
				GVK{Group: i1.op + suffix + ".example.com", Version: "v1alpha1", Kind: kd},
				GVK{Group: i1.op + suffix + ".", Version: "v1alpha1", Kind: kd},
				GVK{Group: g1.Group, Version: gen.Pick(c.T, "ver", "v1", "", "v1beta1", "v1alpha11"), Kind: kd},
				native(c.T), GVK{Version: "v1alpha1", Kind: "View"},
				GVK{Group: i1.op + ".view.dcontroller", Version: "v1alpha1", Kind: kd},
				GVK{Group: "dcontroller.io", Version: "v1alpha1", Kind: "Operator"})
			if viewv1a1.IsViewKind(no) {
				c.Failf("%s is recognized as a view", no)
			}
			if no.Group != g1.Group {
				if viewv1a1.IsViewGroup(no.Group) {
					c.Failf("%s is recognized as a view group", no.Group)
				}
				if _, err := viewv1a1.MapFromView(no); err == nil {
					c.Failf("%s maps back to a native type", no)
				}
				if op := viewv1a1.GetOperator(no); op != "" {
					c.Failf("%s has operator %q", no, op)
				}
			}
		})
}

func TestLists(t *testing.T) {
	hx.Check(t, "list types and resource names of random views map back to the view; native types are passed through; non-trivial: the kind contains List or a capital letter inside",
		hx.Scale(20000, 400000), func(c *hx.Case) {
			d := cache.NewViewDiscovery()
			g := plain(c.T)
			c.Step("%s", g)
			c.NonTrivial(strings.Contains(g.Kind, "List") || strings.ToLower(g.Kind[1:]) != g.Kind[1:])
			l := d.ListGVKFromObjectGVK(g)
			if l == g || d.ObjectGVKFromListGVK(l) != g || !d.IsViewListKind(l) || d.IsViewKind(l) || !d.IsViewKind(g) || d.IsViewListKind(g) {
				c.Failf("list type %s maps back to %s; list %v %v, object %v %v", l, d.ObjectGVKFromListGVK(l), d.IsViewListKind(l), d.IsViewListKind(g), d.IsViewKind(g), d.IsViewKind(l))
			}
			if l2 := cache.NewViewObjectList(viewv1a1.GetOperator(g), g.Kind); l2.GroupVersionKind() != l {
				c.Failf("object list has type %s, want %s", l2.GroupVersionKind(), l)
			}
			if d.ResourceFromKind(g.Kind) != strings.ToLower(g.Kind) || d.ResourceFromKind(l.Kind) != strings.ToLower(g.Kind) {
				c.Failf("resources %q and %q", d.ResourceFromKind(g.Kind), d.ResourceFromKind(l.Kind))
			}
			n := native(c.T)
			if d.IsViewKind(n) || d.IsViewListKind(n) || d.ListGVKFromObjectGVK(n) != n || d.ObjectGVKFromListGVK(n) != n {
				c.Failf("native type %s is treated as a view", n)
			}
		})
}

func ptr(s string) *string { return &s }

func TestSourceIdentity(t *testing.T) {
	mgr, err := manager.NewFakeManager(manager.Options{Logger: hx.Log()})
	if err != nil {
		t.Fatal(err)
	}
	hx.Check(t, "random resource references of an operator (own view with or without group and version, another operator's view, native type with version) resolve to the expected type, as sources and as targets, and equal references only to equal types; non-trivial: the reference has a group",
		hx.Scale(12000, 300000), func(c *hx.Case) {
			op := operator(c.T)
			draw := func() (opv1a1.Resource, GVK) {
				k := kind(c.T)
				r := opv1a1.Resource{Kind: k}
				w := GVK{Group: op + suffix, Version: "v1alpha1", Kind: k}
				switch gen.Int(c.T, 0, 4, "ref") {
				case 0:
				case 1:
					r.Group = ptr(op + suffix)
					if gen.Bool(c.T, "ver") {
						r.Version = ptr("v1alpha1")
					}
				case 2:
					other := operator(c.T)
					r.Group = ptr(other + suffix)
					w.Group = other + suffix
				case 3:
					n := native(c.T)
					r = opv1a1.Resource{Group: ptr(n.Group), Version: ptr(n.Version), Kind: n.Kind}
					w = n
				case 4:
					other := operator(c.T)
					r.Group, r.Version = ptr(other+suffix), ptr("v1alpha1")
					w.Group = other + suffix
				}
				return r, w
			}
			r1, w1 := draw()
			r2, w2 := draw()
			c.Step("operator %s: %s, %s", op, hx.J(r1), hx.J(r2))
			c.NonTrivial(r1.Group != nil)
			var s1, s2 string
			for i, rw := range []struct {
				r opv1a1.Resource
				w GVK
			}{{r1, w1}, {r2, w2}} {
				src := reconciler.NewSource(mgr, op, opv1a1.Source{Resource: rw.r})
				tgt := reconciler.NewTarget(mgr, op, opv1a1.Target{Resource: rw.r, Type: "Updater"})
				for _, x := range []reconciler.Resource{src, tgt, reconciler.NewResource(mgr, op, rw.r)} {
					got, err := x.GetGVK()
					if err != nil || got != rw.w {
						c.Failf("%s resolves to %s (%v), want %s", hx.J(rw.r), got, err, rw.w)
					}
				}
				if i == 0 {
					s1 = src.String()
				} else {
					s2 = src.String()
				}
			}
			if (s1 == s2) != (w1 == w2) {
				c.Failf("identities %q and %q of the types %s and %s", s1, s2, w1, w2)
			}
		})
}

func TestUID(t *testing.T) {
	hx.Check(t, "view objects with similar types, namespaces and names: the UID given to an object without one is the same for the same identity whatever the content, and differs otherwise; native objects and existing UIDs are kept; non-trivial: the two objects differ in one coordinate only",
		hx.Scale(60000, 1500000), func(c *hx.Case) {
			pool := []string{"a", "b", "a-b", "a.b", "ab", "default", "1"}
			type id struct {
				g        GVK
				ns, name string
			}
			draw := func() (id, object.Object) {
				i := id{g: GVK{Group: gen.Pick(c.T, "op", "a", "b", "a.b", "ab") + suffix, Version: "v1alpha1", Kind: gen.Pick(c.T, "k", "A", "B", "a", "Ab")},
					ns: gen.Pick(c.T, "ns", append([]string{""}, pool...)...), name: gen.Pick(c.T, "name", pool...)}
				o := object.New()
				o.Object = gen.Doc(c.T, 2)
				delete(o.Object, "metadata")
				o.SetGroupVersionKind(i.g)
				object.SetName(o, i.ns, i.name)
				if gen.Bool(c.T, "lab") {
					o.SetLabels(map[string]string{"a": "b"})
					o.SetResourceVersion("7")
				}
				return i, o
			}
			i1, o1 := draw()
			i2, o2 := draw()
			if gen.Bool(c.T, "same") {
				i2 = i1
				switch gen.Int(c.T, 0, 6, "coord") {
				case 5: // the same string cut into a namespace and a name at different places
					parts, sep := []string{}, gen.Pick(c.T, "sep", "-", ".", "--", "", ":", "_")
					for range gen.Int(c.T, 3, 4, "parts") {
						parts = append(parts, gen.Pick(c.T, "part", pool...))
					}
					j1, j2 := gen.Int(c.T, 1, len(parts)-1, "cut"), gen.Int(c.T, 1, len(parts)-1, "cut")
					i1.ns, i1.name = strings.Join(parts[:j1], sep), strings.Join(parts[j1:], sep)
					i2.ns, i2.name = strings.Join(parts[:j2], sep), strings.Join(parts[j2:], sep)
				case 6: // the same for a kind and a namespace, or an operator and a kind
					if gen.Bool(c.T, "kind") {
						i1.g.Kind, i1.ns, i2.g.Kind, i2.ns = "Ab", "c", "A", "bc"
					} else {
						i1.ns, i1.name, i2.ns, i2.name = "", i1.name+"-a", i1.name, "a"
					}
				case 0:
					i2.ns = gen.Pick(c.T, "ns", pool...)
				case 1:
					i2.name = gen.Pick(c.T, "name", pool...)
				case 2:
					i2.g.Kind = gen.Pick(c.T, "k", "A", "B")
				case 3:
					i2.ns, i2.name = i1.name, i1.ns
				}
				o1.SetGroupVersionKind(i1.g)
				object.SetName(o1, i1.ns, i1.name)
				o2.SetGroupVersionKind(i2.g)
				object.SetName(o2, i2.ns, i2.name)
				c.NonTrivial(true)
			}
			u1, u2 := object.NewUID(i1.g, i1.ns, i1.name), object.NewUID(i2.g, i2.ns, i2.name)
			c.Step("%+v %s, %+v %s", i1, u1, i2, u2)
			if (i1 == i2) != (u1 == u2) {
				c.Failf("same identity: %v, same UID: %v", i1 == i2, u1 == u2)
			}
			object.WithUID(o1)
			object.WithUID(o2)
			if o1.GetUID() != u1 || o2.GetUID() != u2 || u1 == "" {
				c.Failf("UIDs set: %q, %q", o1.GetUID(), o2.GetUID())
			}
			o1.SetUID("own")
			object.WithUID(o1)
			if o1.GetUID() != "own" {
				c.Failf("an existing UID was replaced")
			}
			object.RemoveUID(o1)
			if o1.GetUID() != "" {
				c.Failf("UID not removed")
			}
			o2.SetGroupVersionKind(native(c.T))
			o2.SetUID("own")
			object.RemoveUID(o2)
			object.WithUID(o2)
			if o2.GetUID() != "own" {
				c.Failf("the UID of a native object changed")
			}
			o2.SetUID("")
			object.WithUID(o2)
			if o2.GetUID() != "" {
				c.Failf("a native object got a UID")
			}
		})
}

func names(gs []GVK) []string {
	r := []string{}
	for _, g := range gs {
		r = append(r, g.String())
	}
	sort.Strings(r)
	return r
}

func TestDiscoveryAndMapping(t *testing.T) {
	hx.Check(t, "random registrations and removals of views of several operators: discovery lists exactly the registered types, each group and version once, and the REST mapper maps kinds to resources and back and leaves native groups alone; non-trivial: two kinds in one group and two groups at some point",
		hx.Scale(5000, 100000), func(c *hx.Case) {
			api, err := cache.NewAPI(nil, cache.APIOptions{Logger: hx.Log()})
			if err != nil {
				c.Failf("harness: %v", err)
			}
			d := api.GetDiscovery()
			reg := map[GVK]bool{}
			low := map[string]GVK{} // kinds of a group are told apart by their lower-case form
			for i, n := 0, gen.Int(c.T, 1, 8, "ops"); i < n; i++ {
				g := GVK{Group: gen.Pick(c.T, "op", "a", "b", "a.b") + suffix, Version: "v1alpha1", Kind: kind(c.T)}
				if gen.Prob(c.T, 3, "native") {
					g = native(c.T)
				}
				if o, ok := low[g.Group+"/"+strings.ToLower(g.Kind)]; ok {
					g = o
				}
				if gen.Prob(c.T, 11, "reg") {
					c.Step("register %s", g)
					if err := d.RegisterViewGVK(g); err != nil {
						c.Failf("registration failed: %v", err)
					}
					if strings.HasSuffix(g.Group, suffix) {
						reg[g] = true
						low[g.Group+"/"+strings.ToLower(g.Kind)] = g
					}
				} else {
					c.Step("unregister %s", g)
					if err := d.UnregisterViewGVK(g); err != nil {
						c.Failf("removal failed: %v", err)
					}
					delete(reg, g)
				}
			}
			want := []GVK{}
			groups := map[string][]string{}
			kinds := map[string]int{}
			for g := range reg {
				want = append(want, g)
				groups[g.Group] = append(groups[g.Group], g.Kind)
				kinds[strings.ToLower(g.Kind)]++
			}
			multi := false
			for _, ks := range groups {
				sort.Strings(ks)
				multi = multi || len(ks) > 1
			}
			c.NonTrivial(multi && len(groups) > 1)
			if g, w := fmt.Sprint(names(d.GetRegisteredViewGVKs())), fmt.Sprint(names(want)); g != w {
				c.Failf("registered views %s, want %s", g, w)
			}
			gl, err := d.ServerGroups()
			if err != nil || len(gl.Groups) != len(groups) {
				c.Failf("server groups %s (%v), want %d", hx.J(gl), err, len(groups))
			}
			checkGroup := func(g *metav1.APIGroup) {
				gv := metav1.GroupVersionForDiscovery{GroupVersion: g.Name + "/v1alpha1", Version: "v1alpha1"}
				if groups[g.Name] == nil || len(g.Versions) != 1 || g.Versions[0] != gv || g.PreferredVersion != gv {
					c.Failf("group listed as %s", hx.J(g))
				}
			}
			for i := range gl.Groups {
				checkGroup(&gl.Groups[i])
			}
			ags, rls, err := d.ServerGroupsAndResources()
			if err != nil || len(ags) != len(groups) || len(rls) != len(groups) {
				c.Failf("%d groups, %d resource lists, want %d (%v)", len(ags), len(rls), len(groups), err)
			}
			for _, g := range ags {
				checkGroup(g)
			}
			pref, err := d.ServerPreferredResources()
			if err != nil {
				c.Failf("%v", err)
			}
			prefn, err := d.ServerPreferredNamespacedResources()
			if err != nil {
				c.Failf("%v", err)
			}
			for _, l := range [][]*metav1.APIResourceList{rls, pref, prefn} {
				seen := map[string]bool{}
				for _, r := range l {
					seen[r.GroupVersion] = true
					checkResources(c, r, groups)
				}
				if len(seen) != len(groups) || len(l) != len(groups) {
					c.Failf("resources of %d groups listed, want %d", len(seen), len(groups))
				}
			}
			m := api.RESTMapper
			direct := cache.NewViewRESTMapper()
			for g := range reg {
				rl, err := d.ServerResourcesForGroupVersion(g.GroupVersion().String())
				if err != nil {
					c.Failf("%v", err)
				}
				checkResources(c, rl, groups)
				res := strings.ToLower(g.Kind)
				gvr := g.GroupVersion().WithResource(res)
				if kinds[res] == 1 {
					if k, err := d.KindFromResource(res); err != nil || k != g.Kind {
						c.Failf("kind of resource %s is %q (%v), want %q", res, k, err, g.Kind)
					}
				}
				if k, err := m.KindFor(gvr); err != nil || k != g {
					c.Failf("REST mapper: kind for %s is %s (%v), want %s", gvr, k, err, g)
				}
				ks, err := m.KindsFor(schema.GroupVersionResource{Group: g.Group, Resource: res})
				if err != nil || len(ks) != 1 || ks[0] != g {
					c.Failf("REST mapper: kinds for %s without version are %v (%v)", gvr, ks, err)
				}
				for _, mm := range []meta.RESTMapper{m, direct} {
					rm, err := mm.RESTMapping(g.GroupKind())
					if err != nil || rm.Resource != gvr || rm.GroupVersionKind != g || rm.Scope.Name() != meta.RESTScopeNameNamespace {
						c.Failf("REST mapping of %s: %s (%v)", g.GroupKind(), hx.J(rm), err)
					}
					rms, err := mm.RESTMappings(g.GroupKind(), "v1alpha1")
					if err != nil || len(rms) != 1 || rms[0].Resource != gvr {
						c.Failf("REST mappings of %s: %s (%v)", g.GroupKind(), hx.J(rms), err)
					}
					if r, err := mm.ResourceFor(gvr); err != nil || r != gvr {
						c.Failf("resource for %s is %s (%v)", gvr, r, err)
					}
					if rs, err := mm.ResourcesFor(gvr); err != nil || len(rs) != 1 || rs[0] != gvr {
						c.Failf("resources for %s are %s (%v)", gvr, rs, err)
					}
					if k, err := mm.KindFor(gvr); err != nil || k.Group != g.Group || k.Version != g.Version || strings.ToLower(k.Kind) != res {
						c.Failf("kind for %s is %s (%v)", gvr, k, err)
					}
				}
			}
			n := native(c.T)
			if _, err := direct.RESTMapping(n.GroupKind()); err == nil {
				c.Failf("the view mapper maps the native type %s", n)
			}
			if _, err := direct.KindFor(n.GroupVersion().WithResource("x")); err == nil {
				c.Failf("the view mapper maps the native type %s", n)
			}
			// unregistered names
			if k, err := d.KindFromResource("no-such-view"); err == nil {
				c.Failf("unregistered resource has kind %q", k)
			}
			leg := d.WithLegacy()
			if lg, err := leg.ServerGroups(); err != nil || len(lg.Groups) != len(groups) {
				c.Failf("legacy discovery lists %s (%v)", hx.J(lg), err)
			}
		})
}

func checkResources(c *hx.Case, r *metav1.APIResourceList, groups map[string][]string) {
	gv, err := schema.ParseGroupVersion(r.GroupVersion)
	if err != nil || gv.Version != "v1alpha1" {
		c.Failf("resource list of %q", r.GroupVersion)
	}
	got := []string{}
	for _, x := range r.APIResources {
		if x.Name != strings.ToLower(x.Kind) || !x.Namespaced {
			c.Failf("resource listed as %s", hx.J(x))
		}
		for _, v := range []string{"get", "list", "create", "update", "patch", "delete", "watch"} {
			if !strings.Contains(" "+strings.Join(x.Verbs, " ")+" ", " "+v+" ") {
				c.Failf("resource listed without verb %s: %s", v, hx.J(x))
			}
		}
		got = append(got, x.Kind)
	}
	sort.Strings(got)
	if fmt.Sprint(got) != fmt.Sprint(groups[gv.Group]) {
		c.Failf("group %s lists kinds %v, want %v", gv.Group, got, groups[gv.Group])
	}
}
