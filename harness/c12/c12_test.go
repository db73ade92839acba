package c12

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/labels"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"k8s.io/apimachinery/pkg/selection"
	"k8s.io/apimachinery/pkg/types"
	"sigs.k8s.io/controller-runtime/pkg/client"

	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

type M = gen.M

var (
	ctx = context.Background()
	ops = []string{"op", "op", "op2", "a.op"}
)

// rawStore is what view caches offer beyond reading.
type rawStore interface {
	client.Reader
	Add(obj object.Object) error
	Update(oldObj, newObj object.Object) error
	Delete(obj object.Object) error
}

type world struct {
	c     *hx.Case
	model map[string]M // type/namespace/name -> content without UID
	uids  map[string]string
	rw    []client.Client
	rwn   []string
	raw   []rawStore
	rawn  []string
}

func newWorld(c *hx.Case) *world {
	w := &world{c: c, model: map[string]M{}, uids: map[string]string{}}
	vc := cache.NewViewCache(cache.CacheOptions{})
	d1 := cache.NewDelegatingViewCache(vc, cache.CacheOptions{})
	d2 := cache.NewDelegatingViewCache(vc, cache.CacheOptions{})
	cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{ViewCache: d2})
	if err != nil {
		c.Fatal(err)
	}
	comp, err := cache.NewClientForCache(nil, cc, cache.ClientOptions{})
	if err != nil {
		c.Fatal(err)
	}
	late := cache.NewViewCacheClient().(*cache.ViewCacheClient)
	late.SetCache(d1)
	w.rw = []client.Client{vc.GetClient(), d1.GetClient(), comp, late}
	w.rwn = []string{"view client", "delegating client", "composite client", "client set to a cache"}
	w.raw = []rawStore{vc, d1}
	w.rawn = []string{"store", "delegating store"}
	return w
}

type id struct {
	gvk      schema.GroupVersionKind
	ns, name string
}

func (i id) key() string            { return i.gvk.Group + "/" + i.gvk.Kind + "/" + i.ns + "/" + i.name }
func (i id) okey() client.ObjectKey { return client.ObjectKey{Namespace: i.ns, Name: i.name} }

func gvk(t gen.T) schema.GroupVersionKind {
	return viewv1a1.GroupVersionKind(gen.Pick(t, "op", ops...), gen.Pick(t, "kind", "V", "V", "W"))
}

// ident prefers the identity of a stored object.
func (w *world) ident() id {
	if len(w.model) > 0 && gen.Prob(w.c.T, 9, "existing") {
		ks := make([]string, 0)
		for k := range w.model {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		p := strings.Split(gen.Pick(w.c.T, "which", ks...), "/")
		return id{gvk: schema.GroupVersionKind{Group: p[0], Version: "v1alpha1", Kind: p[1]}, ns: p[2], name: p[3]}
	}
	return id{gvk: gvk(w.c.T), ns: gen.Pick(w.c.T, "ns", "ns1", "ns2", ""), name: gen.Pick(w.c.T, "name", "a", "b", "c")}
}

func labelMap(t gen.T) M {
	l := M{}
	for _, k := range []string{"app", "tier"} {
		if gen.Prob(t, 9, "label") {
			l[k] = gen.Pick(t, "value", "x", "y", "")
		}
	}
	return l
}

func (w *world) content(i id) M {
	t := w.c.T
	m := M{}
	if gen.Prob(t, 13, "spec") {
		m["spec"] = gen.Doc(t, 2)
	}
	if gen.Prob(t, 8, "status") {
		m["status"] = gen.Doc(t, 2)
	}
	if gen.Prob(t, 3, "phase") {
		m["status"] = gen.Pick(t, "status", M{"phase": "Ready"}, M{"phase": "Failed", "ready": false}, M{"ready": true}, M{"phase": "Ready", "ready": gen.Bool(t, "ready")}, M{"phase": true, "ready": "true"})
	}
	if gen.Prob(t, 4, "extra") {
		m[gen.Pick(t, "f", "a", "b", "data")] = gen.Value(t, 2)
	}
	meta := M{"name": i.name}
	if i.ns != "" {
		meta["namespace"] = i.ns
	}
	if l := labelMap(t); len(l) > 0 {
		meta["labels"] = l
	}
	if gen.Prob(t, 3, "ann") {
		meta["annotations"] = M{"x/y": gen.Pick(t, "annv", "1", "2")}
	}
	m["metadata"] = meta
	m["apiVersion"], m["kind"] = i.gvk.GroupVersion().String(), i.gvk.Kind
	return m
}

func obj(m M) object.Object { return &unstructured.Unstructured{Object: ref.CopyMap(m)} }

// seen normalises an object that was read, checks its UID and returns its content.
func (w *world) seen(i id, o object.Object) string {
	m := ref.CopyMap(o.UnstructuredContent())
	meta, ok := m["metadata"].(M)
	if !ok {
		w.c.Failf("object without metadata: %s", ref.JSON(m))
	}
	uid, _ := meta["uid"].(string)
	if uid == "" {
		w.c.Failf("object %s has no UID", i.key())
	}
	if u, ok := w.uids[i.key()]; ok && u != uid {
		w.c.Failf("the UID of %s changes from %s to %s", i.key(), u, uid)
	}
	w.uids[i.key()] = uid
	delete(meta, "uid")
	return ref.JSON(m)
}

func (w *world) notFound(what string, i id, err error) {
	if err == nil {
		w.c.Failf("%s of the absent object %s succeeds", what, i.key())
	}
	if !apierrors.IsNotFound(err) {
		w.c.Failf("%s of the absent object %s: not a not-found error: %v", what, i.key(), err)
	}
	w.c.Class("absent")
}

func (w *world) ok(what string, i id, err error) {
	if err != nil {
		w.c.Failf("%s of %s: %v", what, i.key(), err)
	}
}

// scrib overwrites an object handed in or out.
func scrib(o object.Object) { gen.Scribble(o.Object) }

// full checks the whole store against the model through random readers.
func (w *world) full() {
	c := w.c
	for _, g := range []schema.GroupVersionKind{viewv1a1.GroupVersionKind("op", "V"), viewv1a1.GroupVersionKind("op", "W"),
		viewv1a1.GroupVersionKind("op2", "V"), viewv1a1.GroupVersionKind("a.op", "V")} {
		r := w.rw[gen.Int(c.T, 0, len(w.rw)-1, "reader")]
		list := &unstructured.UnstructuredList{}
		list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
		w.ok("listing", id{gvk: g}, r.List(ctx, list))
		w.same(g, list, func(M) bool { return true })
	}
}

func (w *world) same(g schema.GroupVersionKind, list *unstructured.UnstructuredList, match func(M) bool) int {
	want := map[string]string{}
	for k, m := range w.model {
		if strings.HasPrefix(k, g.Group+"/"+g.Kind+"/") && match(m) {
			want[k] = ref.JSON(m)
		}
	}
	n := len(want)
	for k := range list.Items {
		o := &list.Items[k]
		i := id{gvk: o.GroupVersionKind(), ns: o.GetNamespace(), name: o.GetName()}
		exp, ok := want[i.key()]
		if !ok {
			w.c.Failf("list of %s returns %s, which is not wanted (again)", g, i.key())
		}
		if got := w.seen(i, o); got != exp {
			w.c.Failf("list of %s returns %s as %s, want %s", g, i.key(), got, exp)
		}
		delete(want, i.key())
		scrib(o)
	}
	for k := range want {
		w.c.Failf("list of %s misses %s", g, k)
	}
	return n
}

// options draws list options and the condition that they stand for.
func options(t gen.T) ([]client.ListOption, string, func(M) bool) {
	var opts []client.ListOption
	desc := []string{}
	conds := []func(M) bool{}
	lo := &client.ListOptions{}
	packed := gen.Prob(t, 5, "packed")
	meta := func(m M, f string) string { s, _ := m["metadata"].(M)[f].(string); return s }
	lab := func(m M) labels.Set {
		s := labels.Set{}
		l, _ := m["metadata"].(M)["labels"].(M)
		for k, v := range l {
			s[k] = v.(string)
		}
		return s
	}
	if gen.Prob(t, 7, "ns") {
		ns := gen.Pick(t, "inns", "ns1", "ns2", "")
		desc = append(desc, "ns="+ns)
		opts = append(opts, client.InNamespace(ns))
		lo.Namespace = ns
		if ns != "" {
			conds = append(conds, func(m M) bool { return meta(m, "namespace") == ns })
		}
	}
	if gen.Prob(t, 9, "sel") {
		var sel labels.Selector
		var o client.ListOption
		k, v := gen.Pick(t, "lk", "app", "tier"), gen.Pick(t, "lv", "x", "y", "")
		switch gen.Int(t, 0, 3, "selkind") {
		case 0:
			sel = labels.SelectorFromSet(labels.Set{k: v})
			o = client.MatchingLabels{k: v}
		case 1:
			op := gen.Pick(t, "op", selection.In, selection.NotIn, selection.Exists, selection.DoesNotExist, selection.NotEquals)
			vs := []string{}
			switch op {
			case selection.In, selection.NotIn:
				vs = []string{v, "y"}
			case selection.NotEquals:
				vs = []string{v}
			}
			r, err := labels.NewRequirement(k, op, vs)
			if err != nil {
				panic(err)
			}
			sel = labels.NewSelector().Add(*r)
			o = client.MatchingLabelsSelector{Selector: sel}
		case 2:
			r, _ := labels.NewRequirement(k, selection.Exists, nil)
			sel = labels.NewSelector().Add(*r)
			o = client.HasLabels{k}
		case 3:
			sel = labels.SelectorFromSet(labels.Set{"app": v, "tier": "x"})
			o = client.MatchingLabels{"app": v, "tier": "x"}
		}
		desc = append(desc, "labels="+sel.String())
		opts = append(opts, o)
		lo.LabelSelector = sel
		conds = append(conds, func(m M) bool { return sel.Matches(lab(m)) })
	}
	if gen.Prob(t, 5, "fields") {
		fs, match := gen.Fields(t, "a", "b")
		opts = append(opts, client.MatchingFieldsSelector{Selector: fs})
		lo.FieldSelector = fs
		desc = append(desc, "fields="+fs.String())
		conds = append(conds, match)
	}
	if packed {
		opts = []client.ListOption{lo}
		desc = append(desc, "(one options object)")
	}
	return opts, strings.Join(desc, " "), func(m M) bool {
		for _, f := range conds {
			if !f(m) {
				return false
			}
		}
		return true
	}
}

func (w *world) step() (changed bool) {
	c := w.c
	t := c.T
	n := gen.Int(t, 0, len(w.rw)-1, "client")
	cl, cn := w.rw[n], w.rwn[n]
	i := w.ident()
	old, exists := w.model[i.key()]
	switch gen.Int(t, 0, 15, "op") {
	case 0, 1: // create
		m := w.content(i)
		c.Step("%s: create %s", cn, ref.JSON(m))
		o := obj(m)
		var err error
		c.NoPanic("Create", func() { err = cl.Create(ctx, o) })
		w.ok("create", i, err)
		if _, ok := cl.(*cache.CompositeClient); !ok {
			if g, err := cl.GroupVersionKindFor(o); err != nil || g != o.GetObjectKind().GroupVersionKind() {
				c.Failf("%s: the type of %s is %v (%v)", cn, i.key(), g, err)
			}
			if n, err := cl.IsObjectNamespaced(o); err != nil || !n {
				c.Failf("%s: %s is not namespaced (%v)", cn, i.key(), err)
			}
		}
		scrib(o)
		w.model[i.key()] = m
		return true
	case 2, 3: // update
		m := w.content(i)
		if exists && gen.Prob(t, 3, "equal") {
			m = ref.CopyMap(old)
		}
		c.Step("%s: update %s", cn, ref.JSON(m))
		o := obj(m)
		var err error
		c.NoPanic("Update", func() { err = cl.Update(ctx, o) })
		scrib(o)
		if !exists {
			w.notFound("update", i, err)
			return false
		}
		w.ok("update", i, err)
		w.model[i.key()] = m
		return true
	case 4, 5: // patch
		p := M{}
		if gen.Prob(t, 12, "pspec") {
			p["spec"] = gen.Value(t, 3)
		}
		if gen.Prob(t, 6, "pstatus") {
			p["status"] = gen.Value(t, 2)
		}
		if gen.Prob(t, 5, "pmeta") {
			l := M{}
			for _, k := range []string{"app", "tier"} {
				switch gen.Int(t, 0, 2, "plabel") {
				case 0:
					l[k] = nil
				case 1:
					l[k] = gen.Pick(t, "plv", "x", "y")
				}
			}
			p["metadata"] = M{"labels": l}
		}
		o := obj(M{"apiVersion": i.gvk.GroupVersion().String(), "kind": i.gvk.Kind, "metadata": M{"name": i.name, "namespace": i.ns}})
		pt := client.RawPatch(types.MergePatchType, []byte(ref.JSON(p)))
		viaStatus := gen.Prob(t, 4, "viastatus")
		c.Step("%s: patch %s (as status: %v) with %s", cn, i.key(), viaStatus, ref.JSON(p))
		var err error
		c.NoPanic("Patch", func() {
			if viaStatus {
				err = cl.Status().Patch(ctx, o, pt)
			} else {
				err = cl.Patch(ctx, o, pt)
			}
		})
		scrib(o)
		if !exists {
			w.notFound("patch", i, err)
			return false
		}
		w.ok("patch", i, err)
		w.model[i.key()] = ref.Patch(old, p).(M)
		return true
	case 6: // patch of the identity
		f := gen.Pick(t, "idf", "name", "namespace", "kind", "apiVersion")
		p := M{"spec": M{"a": "patched"}}
		switch f {
		case "kind":
			p["kind"] = "Other"
		case "apiVersion":
			p["apiVersion"] = "op3.view.dcontroller.io/v1alpha1"
		default:
			p["metadata"] = M{f: "other"}
		}
		o := obj(M{"apiVersion": i.gvk.GroupVersion().String(), "kind": i.gvk.Kind, "metadata": M{"name": i.name, "namespace": i.ns}})
		c.Step("%s: patch the %s of %s", cn, f, i.key())
		var err error
		c.NoPanic("Patch", func() { err = cl.Patch(ctx, o, client.RawPatch(types.MergePatchType, []byte(ref.JSON(p)))) })
		if !exists {
			w.notFound("patch", i, err)
			return false
		}
		c.Class("identity patch")
		// refused or ignored, but the object stays what it is and no other object appears
		if err == nil {
			w.model[i.key()] = ref.Patch(old, M{"spec": M{"a": "patched"}}).(M)
		}
		for _, j := range []id{{i.gvk, i.ns, "other"}, {i.gvk, "other", i.name},
			{schema.GroupVersionKind{Group: i.gvk.Group, Version: i.gvk.Version, Kind: "Other"}, i.ns, i.name},
			{schema.GroupVersionKind{Group: "op3.view.dcontroller.io", Version: i.gvk.Version, Kind: i.gvk.Kind}, i.ns, i.name}} {
			g := obj(M{"apiVersion": j.gvk.GroupVersion().String(), "kind": j.gvk.Kind})
			if err := cl.Get(ctx, j.okey(), g); err == nil {
				c.Failf("patching the %s of %s makes the object %s", f, i.key(), j.key())
			}
		}
		return true
	case 7: // status update
		m := w.content(i)
		if gen.Prob(t, 8, "withstatus") {
			m["status"] = gen.Doc(t, 2)
		}
		st, has := m["status"].(M)
		o := obj(m)
		sub := gen.Bool(t, "sub")
		c.Step("%s: status update %s", cn, ref.JSON(m))
		var err error
		c.NoPanic("Status().Update", func() {
			if sub {
				err = cl.SubResource("status").Update(ctx, o)
			} else {
				err = cl.Status().Update(ctx, o)
			}
		})
		scrib(o)
		if !has {
			if err == nil {
				c.Failf("status update without a status succeeds")
			}
			return false
		}
		if !exists {
			w.notFound("status update", i, err)
			return false
		}
		w.ok("status update", i, err)
		nm := ref.CopyMap(old)
		nm["status"] = ref.Copy(st)
		w.model[i.key()] = nm
		c.Class("status update")
		return true
	case 8: // status get
		o := obj(M{"apiVersion": i.gvk.GroupVersion().String(), "kind": i.gvk.Kind, "metadata": M{"name": i.name, "namespace": i.ns}})
		so := obj(M{"apiVersion": i.gvk.GroupVersion().String(), "kind": i.gvk.Kind})
		c.Step("%s: status get %s", cn, i.key())
		var err error
		c.NoPanic("SubResource().Get", func() { err = cl.SubResource("status").Get(ctx, o, so) })
		if !exists {
			w.notFound("status get", i, err)
			return false
		}
		st, has := old["status"].(M)
		if !has {
			if err == nil {
				c.Failf("the absent status of %s is read as %s", i.key(), ref.JSON(so.Object))
			}
			return false
		}
		w.ok("status get", i, err)
		if ref.JSON(so.Object) != ref.JSON(st) {
			c.Failf("the status of %s is read as %s, want %s", i.key(), ref.JSON(so.Object), ref.JSON(st))
		}
		scrib(so)
		return false
	case 9, 10: // delete
		m := w.content(i) // only the identity counts
		o := obj(m)
		c.Step("%s: delete %s", cn, i.key())
		var err error
		c.NoPanic("Delete", func() { err = cl.Delete(ctx, o) })
		if !exists {
			w.notFound("delete", i, err)
			return false
		}
		w.ok("delete", i, err)
		delete(w.model, i.key())
		return true
	case 11: // bulk deletion
		opts, desc, match := options(t)
		dopts := []client.DeleteAllOfOption{}
		for _, o := range opts {
			if lo, ok := o.(*client.ListOptions); ok {
				dopts = append(dopts, &client.DeleteAllOfOptions{ListOptions: *lo})
			} else {
				dopts = append(dopts, o.(client.DeleteAllOfOption))
			}
		}
		o := obj(M{"apiVersion": i.gvk.GroupVersion().String(), "kind": i.gvk.Kind})
		c.Step("%s: delete all of %s %s", cn, i.gvk, desc)
		var err error
		c.NoPanic("DeleteAllOf", func() { err = cl.DeleteAllOf(ctx, o, dopts...) })
		w.ok("bulk deletion", i, err)
		for k, m := range w.model {
			if strings.HasPrefix(k, i.gvk.Group+"/"+i.gvk.Kind+"/") && match(m) {
				delete(w.model, k)
				changed = true
			}
		}
		c.ClassIf(changed, "bulk deletion")
		return changed
	case 12: // get
		r := client.Reader(cl)
		if gen.Bool(t, "rawread") {
			r = w.raw[gen.Int(t, 0, 1, "raw")]
		}
		o := obj(M{"apiVersion": i.gvk.GroupVersion().String(), "kind": i.gvk.Kind})
		if gen.Bool(t, "dirty") {
			o.Object["spec"], o.Object["old"] = M{"z": int64(9)}, "old"
		}
		c.Step("get %s", i.key())
		var err error
		c.NoPanic("Get", func() { err = r.Get(ctx, i.okey(), o) })
		if !exists {
			w.notFound("get", i, err)
			return false
		}
		w.ok("get", i, err)
		if got := w.seen(i, o); got != ref.JSON(old) {
			c.Failf("get %s gives %s, want %s", i.key(), got, ref.JSON(old))
		}
		scrib(o)
		return false
	case 13: // list
		opts, desc, match := options(t)
		r := client.Reader(cl)
		if gen.Bool(t, "rawread") {
			r = w.raw[gen.Int(t, 0, 1, "raw")]
		}
		list := &unstructured.UnstructuredList{}
		list.SetGroupVersionKind(i.gvk.GroupVersion().WithKind(i.gvk.Kind + "List"))
		if gen.Prob(t, 4, "reused") {
			desc += " (into the same list twice)"
			w.ok("list", i, r.List(ctx, list, opts...))
		}
		c.Step("list %s %s", i.gvk, desc)
		c.NoPanic("List", func() { w.ok("list", i, r.List(ctx, list, opts...)) })
		n := w.same(i.gvk, list, match)
		c.ClassIf(n > 0 && desc != "", "selected list")
		return false
	case 14: // direct add
		k := gen.Int(t, 0, 1, "raw")
		m := w.content(i)
		c.Step("%s: add %s", w.rawn[k], ref.JSON(m))
		o := obj(m)
		w.ok("add", i, w.raw[k].Add(o))
		scrib(o)
		w.model[i.key()] = m
		return true
	default: // direct update or delete
		k := gen.Int(t, 0, 1, "raw")
		if gen.Bool(t, "del") {
			c.Step("%s: delete %s", w.rawn[k], i.key())
			err := w.raw[k].Delete(obj(w.content(i)))
			if !exists {
				w.notFound("delete", i, err)
				return false
			}
			w.ok("delete", i, err)
			delete(w.model, i.key())
			return true
		}
		if !exists {
			return false
		}
		m := w.content(i)
		c.Step("%s: update %s", w.rawn[k], ref.JSON(m))
		o, oo := obj(m), obj(old)
		w.ok("update", i, w.raw[k].Update(oo, o))
		scrib(o)
		scrib(oo)
		w.model[i.key()] = m
		return true
	}
}

// TestStore: operation histories against a map.
func TestStore(t *testing.T) {
	hx.Check(t, "histories of 1 to 25 operations on views of 4 types, 3 namespaces (the empty one included) and 3 names: creates, updates (of absent objects too), merge patches, patches of the identity, status updates, patches and reads, deletions, bulk deletions, gets and lists with namespace, label and field selectors, through the store, two attached stores and their clients and a composite client, every object handed in or out being overwritten; results and, after every change, the full content of the store must equal those of a map; non-trivial: at least 4 changes and 2 objects at a time",
		hx.Scale(12000, 400000), func(c *hx.Case) {
			w := newWorld(c)
			changes, most := 0, 0
			for k, n := 0, gen.Int(c.T, 1, 25, "ops"); k < n; k++ {
				if w.step() {
					changes++
					w.full()
				}
				if len(w.model) > most {
					most = len(w.model)
				}
			}
			w.full()
			c.NonTrivial(changes >= 4 && most >= 2)
		})
}

// TestNotViews: objects of native types are refused by the view store.
func TestNotViews(t *testing.T) {
	hx.Check(t, "operations of the view store and its client on objects of native or look-alike types: an error, nothing stored; every case is non-trivial",
		hx.Scale(1500, 30000), func(c *hx.Case) {
			w := newWorld(c)
			g := gen.Pick(c.T, "gvk",
				schema.GroupVersionKind{Version: "v1", Kind: "Pod"},
				schema.GroupVersionKind{Group: "apps", Version: "v1", Kind: "Deployment"},
				schema.GroupVersionKind{Group: "op.view.dcontroller.io", Version: "v1", Kind: "V"},
				schema.GroupVersionKind{Group: "op.view.dcontroller.io.com", Version: "v1alpha1", Kind: "V"})
			o := obj(M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": M{"name": "a", "namespace": "ns1"}, "spec": M{"a": int64(1)}})
			cl := w.rw[gen.Pick(c.T, "client", 0, 1, 3)]
			op := gen.Int(c.T, 0, 6, "op")
			c.Step("op %d on %s", op, g)
			var err error
			c.NoPanic("operation", func() {
				switch op {
				case 0:
					err = cl.Create(ctx, o)
				case 1:
					err = cl.Update(ctx, o)
				case 2:
					err = cl.Delete(ctx, o)
				case 3:
					err = cl.Get(ctx, client.ObjectKey{Namespace: "ns1", Name: "a"}, o)
				case 4:
					err = cl.Patch(ctx, o, client.RawPatch(types.MergePatchType, []byte(`{"spec":{"a":2}}`)))
				case 5:
					list := &unstructured.UnstructuredList{}
					list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
					err = cl.List(ctx, list)
				case 6:
					err = w.raw[0].Add(o)
				}
			})
			if err == nil {
				c.Failf("accepted")
			}
			c.NonTrivial(true)
		})
}

// TestConcurrent: operations are atomic, no change gets lost.
func TestConcurrent(t *testing.T) {
	hx.Check(t, "2 to 6 concurrent clients on one or two objects, each patching fields of its own, updating the status, or creating and deleting objects of its own 1 to 40 times through different surfaces, while readers get and list: at the end every object holds the last value of every field and of its status, readers see no half-done change (two fields that are always patched together), and nothing else is there; non-trivial: at least 2 clients patch the same object",
		hx.Scale(1200, 40000), func(c *hx.Case) {
			w := newWorld(c)
			g := viewv1a1.GroupVersionKind("op", "V")
			nobj := gen.Int(c.T, 1, 2, "objects")
			for k := 0; k < nobj; k++ {
				w.ok("create", id{gvk: g}, w.rw[0].Create(ctx, obj(M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind,
					"metadata": M{"name": fmt.Sprintf("n%d", k), "namespace": "ns1"}, "spec": M{"keep": "me"}})))
			}
			type plan struct{ kind, obj, n, via int }
			plans := []plan{}
			patchers := map[int]int{}
			for k, n := 0, gen.Int(c.T, 2, 6, "clients"); k < n; k++ {
				p := plan{gen.Pick(c.T, "kind", 0, 0, 0, 1, 2, 3), gen.Int(c.T, 0, nobj-1, "obj"), gen.Int(c.T, 1, 40, "n"), gen.Int(c.T, 0, len(w.rw)-1, "via")}
				if p.kind == 1 {
					for _, q := range plans {
						if q.kind == 1 && q.obj == p.obj {
							p.kind = 0 // one status writer per object
						}
					}
				}
				if p.kind < 2 {
					patchers[p.obj]++
				}
				plans = append(plans, p)
				c.Step("client %d: kind %d on n%d, %d times via the %s", k, p.kind, p.obj, p.n, w.rwn[p.via])
			}
			ident := func(name string) M {
				return M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": M{"name": name, "namespace": "ns1"}}
			}
			var mu sync.Mutex
			bad := ""
			fail := func(f string, a ...any) {
				mu.Lock()
				defer mu.Unlock()
				if bad == "" {
					bad = fmt.Sprintf(f, a...)
				}
			}
			var wg sync.WaitGroup
			start := make(chan struct{})
			for k, p := range plans {
				wg.Add(1)
				go func() {
					defer wg.Done()
					<-start
					cl, name := w.rw[p.via], fmt.Sprintf("n%d", p.obj)
					for j := 1; j <= p.n; j++ {
						var err error
						switch p.kind {
						case 0:
							err = cl.Patch(ctx, obj(ident(name)), client.RawPatch(types.MergePatchType,
								[]byte(fmt.Sprintf(`{"spec":{"f%d":%d,"g%d":%d},"metadata":{"labels":{"l%d":"v%d"}}}`, k, j, k, j, k, j))))
						case 1:
							m := ident(name)
							m["status"] = M{"i": int64(j)}
							err = cl.Status().Update(ctx, obj(m))
						case 2:
							m := ident(fmt.Sprintf("own%d", k))
							m["spec"] = M{"i": int64(j)}
							if err = cl.Create(ctx, obj(m)); err == nil && j < p.n {
								err = cl.Delete(ctx, obj(m))
							}
						case 3:
							o := obj(M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind})
							if err = cl.Get(ctx, client.ObjectKey{Namespace: "ns1", Name: name}, o); err == nil {
								spec, _ := o.UnstructuredContent()["spec"].(M)
								for q := range plans {
									if spec[fmt.Sprintf("f%d", q)] != spec[fmt.Sprintf("g%d", q)] {
										fail("half of a patch is visible: %s", ref.JSON(o.UnstructuredContent()))
									}
								}
								if spec["keep"] != "me" {
									fail("the object read is %s", ref.JSON(o.UnstructuredContent()))
								}
								scrib(o)
							}
							list := &unstructured.UnstructuredList{}
							list.SetGroupVersionKind(g.GroupVersion().WithKind(g.Kind + "List"))
							if err == nil {
								err = cl.List(ctx, list)
							}
							if len(list.Items) < nobj {
								fail("list returns %d objects, %d exist", len(list.Items), nobj)
							}
							for x := range list.Items {
								scrib(&list.Items[x])
							}
						}
						if err != nil {
							fail("client %d: %v", k, err)
						}
					}
				}()
			}
			close(start)
			c.MustReturn("the clients", 60*time.Second, wg.Wait)
			if bad != "" {
				c.Failf("%s", bad)
			}
			for k := 0; k < nobj; k++ {
				m := ident(fmt.Sprintf("n%d", k))
				spec, l := M{"keep": "me"}, M{}
				for q, p := range plans {
					if p.obj != k {
						continue
					}
					switch p.kind {
					case 0:
						spec[fmt.Sprintf("f%d", q)], spec[fmt.Sprintf("g%d", q)] = int64(p.n), int64(p.n)
						l[fmt.Sprintf("l%d", q)] = fmt.Sprintf("v%d", p.n)
					case 1:
						m["status"] = M{"i": int64(p.n)}
					}
				}
				m["spec"] = spec
				if len(l) > 0 {
					m["metadata"].(M)["labels"] = l
				}
				w.model[id{gvk: g, ns: "ns1", name: fmt.Sprintf("n%d", k)}.key()] = m
			}
			for q, p := range plans {
				if p.kind == 2 {
					m := ident(fmt.Sprintf("own%d", q))
					m["spec"] = M{"i": int64(p.n)}
					w.model[id{gvk: g, ns: "ns1", name: fmt.Sprintf("own%d", q)}.key()] = m
				}
			}
			w.full()
			c.NonTrivial(patchers[0] >= 2 || patchers[1] >= 2)
		})
}
