package c11

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	apierrors "k8s.io/apimachinery/pkg/api/errors"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	crcache "sigs.k8s.io/controller-runtime/pkg/cache"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/client/fake"
	"sigs.k8s.io/controller-runtime/pkg/client/interceptor"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

type M = gen.M
type L = gen.L

var ctx = context.Background()

// nativeGVK is a native type with a status subresource and free content.
var (
	nativeGVK = schema.GroupVersionKind{Group: "example.com", Version: "v1", Kind: "Widget"}
	plainGVK  = schema.GroupVersionKind{Group: "example.com", Version: "v1", Kind: "Plain"}
)

// mgr is a manager with a client of our own.
type mgr struct {
	manager.Manager
	c client.Client
}

func (m *mgr) GetClient() client.Client { return m.c }

// reads is a cache of native objects that reads from a client.
type reads struct {
	crcache.Cache
	c client.Client
}

func (r *reads) Get(cx context.Context, k client.ObjectKey, o client.Object, opts ...client.GetOption) error {
	return r.c.Get(cx, k, o, opts...)
}

func (r *reads) List(cx context.Context, l client.ObjectList, opts ...client.ListOption) error {
	return r.c.List(cx, l, opts...)
}

// composite is the client that serves native objects from the given client and views from a view cache.
func composite(c *hx.Case, cl client.Client) client.Client {
	cc, err := cache.NewCompositeCache(nil, cache.CacheOptions{DefaultCache: &reads{c: cl}})
	if err != nil {
		c.Failf("composite cache: %v", err)
	}
	r, err := cache.NewCompositeClient(nil, cache.ClientOptions{})
	if err != nil {
		c.Failf("composite client: %v", err)
	}
	r.SetClient(cl)
	r.SetCache(cc)
	return r
}

func meta(o M) M { m, _ := o["metadata"].(M); return m }

func nested(o M, f string) M { m, _ := meta(o)[f].(M); return m }

// clean drops what the store adds and what makes no difference: resource versions and empty label maps.
func clean(o M) M {
	o = ref.CopyMap(o)
	if s, ok := o["status"]; ok && s == nil {
		delete(o, "status") // the fake client's empty status
	}
	if m := meta(o); m != nil {
		for _, k := range []string{"resourceVersion", "managedFields", "creationTimestamp"} {
			delete(m, k)
		}
		for _, k := range []string{"labels", "annotations"} {
			if x, ok := m[k].(M); ok && len(x) == 0 {
				delete(m, k)
			}
		}
	}
	return o
}

func dump(s map[string]M) string {
	ks := []string{}
	for k := range s {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	b := &strings.Builder{}
	for _, k := range ks {
		fmt.Fprintf(b, "\n      %s: %s", k, ref.JSON(clean(s[k])))
	}
	return b.String()
}

var (
	fields = []string{"a", "b", "spec", "status", "kind2"}
	labs   = []string{"l1", "l2", "app"}
)

func strMap(t gen.T) M {
	m := M{}
	for i, n := 0, gen.Int(t, 1, 2, "n"); i < n; i++ {
		m[gen.Pick(t, "label", labs...)] = gen.Pick(t, "v", "x", "y", "")
	}
	return m
}

// value draws a value without nulls; lists hold maps only if maps is set.
func value(t gen.T, d int, maps bool) any {
	switch gen.Int(t, 0, 5, "v") {
	case 0, 1:
		if d > 0 {
			m := M{}
			for i, n := 0, gen.Int(t, 0, 3, "n"); i < n; i++ {
				m[gen.Pick(t, "f", "x", "y", "z", "a")] = value(t, d-1, maps)
			}
			return m
		}
	case 2:
		if d > 0 {
			l := L{}
			for i, n := 0, gen.Int(t, 0, 3, "n"); i < n; i++ {
				if maps {
					m := M{}
					m[gen.Pick(t, "f", "x", "y")] = value(t, d-1, maps)
					l = append(l, m)
				} else {
					l = append(l, value(t, d-1, maps))
				}
			}
			return l
		}
	case 3:
		return gen.Bool(t, "b")
	case 4:
		return int64(gen.Int(t, 0, 3, "i"))
	}
	return gen.Pick(t, "s", "", "p", "q", "1.5")
}

// content draws the content of an object or delta with some metadata.
func content(t gen.T, ns, name string, maps bool) M {
	md := M{"name": name}
	if ns != "" {
		md["namespace"] = ns
	}
	if gen.Bool(t, "labels") {
		md["labels"] = strMap(t)
	}
	if gen.Prob(t, 5, "annotations") {
		md["annotations"] = strMap(t)
	}
	o := M{"metadata": md}
	for i, n := 0, gen.Int(t, 0, 3, "fields"); i < n; i++ {
		f := gen.Pick(t, "field", fields...)
		if f == "status" {
			o[f] = M{"x": value(t, 1, maps), "phase": gen.Pick(t, "phase", "on", "off")}
		} else {
			o[f] = value(t, 3, maps)
		}
	}
	return o
}

// derived draws a delta that mentions fields of the object, some changed, some nulled if nulls is set.
func derived(t gen.T, v any, nulls, maps bool, d int) any {
	switch x := v.(type) {
	case M:
		m := M{}
		for _, k := range sorted(x) {
			switch gen.Int(t, 0, 4, "do") {
			case 0, 1:
			case 2:
				if nulls {
					m[k] = nil
				}
			default:
				m[k] = derived(t, x[k], nulls, maps, d-1)
			}
		}
		if gen.Prob(t, 4, "more") {
			m[gen.Pick(t, "f", "x", "y", "n")] = value(t, d, maps)
		}
		return m
	case L:
		l := L{}
		for i, n := 0, gen.Int(t, 0, len(x)+1, "len"); i < n; i++ {
			if i < len(x) {
				l = append(l, derived(t, x[i], nulls, maps, d-1))
			} else if maps {
				l = append(l, M{"x": "more"})
			} else {
				l = append(l, value(t, d-1, maps))
			}
		}
		if maps {
			for i := range l {
				if _, ok := l[i].(M); !ok {
					l[i] = M{}
				}
			}
		}
		return l
	}
	if gen.Bool(t, "same") {
		return v
	}
	return value(t, d, maps)
}

func sorted(m M) []string {
	ks := []string{}
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// derivedDelta draws a delta for an existing object.
func derivedDelta(t gen.T, cur M, ns, name string, nulls, maps bool) M {
	o := M{}
	md := M{"name": name}
	if ns != "" {
		md["namespace"] = ns
	}
	for _, f := range []string{"labels", "annotations"} {
		m := M{}
		for _, k := range sorted(nested(cur, f)) {
			switch gen.Int(t, 0, 3, "label") {
			case 0:
				m[k] = gen.Pick(t, "v", "x", "y", "new")
			case 1:
				if nulls {
					m[k] = nil
				}
			}
		}
		if gen.Prob(t, 4, "new label") {
			m[gen.Pick(t, "label", labs...)] = "z"
		}
		if len(m) > 0 {
			md[f] = m
		}
	}
	o["metadata"] = md
	for _, k := range sorted(cur) {
		if k == "metadata" || k == "apiVersion" || k == "kind" {
			continue
		}
		switch gen.Int(t, 0, 4, "field") {
		case 0, 1:
			o[k] = derived(t, cur[k], nulls, maps, 2)
		case 2:
			if nulls && k != "status" {
				o[k] = nil
			}
		case 3:
			o[k] = ref.Copy(cur[k])
		}
	}
	if gen.Prob(t, 4, "new field") {
		o[gen.Pick(t, "field", "a", "b", "n")] = value(t, 2, maps)
	}
	if s, ok := o["status"]; ok {
		if _, ok := s.(M); !ok {
			delete(o, "status")
		}
	}
	if maps {
		return strip(o).(M)
	}
	return o
}

// strip removes lists that hold anything but maps.
func strip(v any) any {
	switch x := v.(type) {
	case M:
		r := M{}
		for k, y := range x {
			r[k] = strip(y)
		}
		return r
	case L:
		r := L{}
		for _, y := range x {
			if m, ok := y.(M); ok {
				r = append(r, strip(m))
			} else {
				r = append(r, M{})
			}
		}
		return r
	}
	return v
}

// remove is the reference for the deletion of a delta's fields.
func remove(o, m any) any {
	switch x := m.(type) {
	case M:
		om, ok := o.(M)
		if !ok {
			return o
		}
		r := ref.CopyMap(om)
		for k, v := range x {
			w, ok := r[k]
			if !ok {
				continue
			}
			switch v.(type) {
			case M, L:
				r[k] = remove(w, v)
			case nil:
			default:
				delete(r, k)
			}
		}
		return r
	case L:
		ol, ok := o.(L)
		if !ok {
			return o
		}
		r := ref.Copy(ol).(L)
		for i := range x {
			if i < len(r) {
				r[i] = remove(r[i], x[i])
			}
		}
		return r
	}
	return o
}

// Write describes one write.
type Write struct {
	patcher bool
	typ     object.DeltaType
	delta   M
	gvk     schema.GroupVersionKind
}

func (w Write) String() string {
	k := "update"
	if w.patcher {
		k = "patch"
	}
	return fmt.Sprintf("%s %s %s %s", k, w.typ, w.gvk.Kind, ref.JSON(w.delta))
}

func key(o M) string {
	s, _ := meta(o)["namespace"].(string)
	return s + "/" + meta(o)["name"].(string)
}

// identity restores what identifies an object.
func (w Write) identity(o, old M) M {
	o["apiVersion"], o["kind"] = w.gvk.GroupVersion().String(), w.gvk.Kind
	md, _ := o["metadata"].(M)
	if md == nil {
		md = M{}
		o["metadata"] = md
	}
	for _, k := range []string{"name", "namespace"} {
		delete(md, k)
		if v, ok := meta(w.delta)[k]; ok {
			md[k] = v
		}
	}
	for _, k := range []string{"uid", "resourceVersion"} {
		delete(md, k)
		if v, ok := meta(old)[k]; ok && old != nil {
			md[k] = v
		}
	}
	return o
}

// apply is the reference: the object after the write (nil: none) and whether an error may be returned.
func (w Write) apply(cur M) (M, bool) {
	switch {
	case !w.patcher && w.typ == object.Deleted:
		return nil, false
	case !w.patcher:
		o := ref.CopyMap(w.delta)
		md := M{}
		if cur != nil {
			md = ref.CopyMap(meta(cur))
		}
		for _, f := range []string{"labels", "annotations"} {
			if m := nested(w.delta, f); m != nil {
				x, _ := md[f].(M)
				if x == nil {
					x = M{}
				}
				for k, v := range m {
					x[k] = v
				}
				md[f] = x
			}
		}
		o["metadata"] = md
		if _, ok := o["status"]; !ok && w.gvk == nativeGVK && cur["status"] != nil {
			// the status subresource is left alone
			o["status"] = ref.Copy(cur["status"])
		}
		return w.identity(o, cur), false
	case cur == nil:
		return nil, w.typ != object.Deleted
	case w.typ == object.Deleted:
		return w.identity(remove(cur, w.delta).(M), cur), false
	}
	return w.identity(ref.Patch(cur, w.delta).(M), cur), false
}

func id(gvk schema.GroupVersionKind) string {
	g, _, _ := strings.Cut(gvk.Group, ".")
	return g + "." + gvk.Kind
}

func target(m manager.Manager, op string, gvk schema.GroupVersionKind, patcher bool) reconciler.Target {
	t := opv1a1.Target{Resource: opv1a1.Resource{Kind: gvk.Kind}, Type: opv1a1.Updater}
	if !viewv1a1.IsViewKind(gvk) {
		t.Group, t.Version = &gvk.Group, &gvk.Version
	}
	if patcher {
		t.Type = opv1a1.Patcher
	}
	return reconciler.NewTarget(m, op, t)
}

func drawWrite(t gen.T, gvk schema.GroupVersionKind, model map[string]M, names []string) Write {
	w := Write{patcher: gen.Bool(t, "patcher"), gvk: gvk}
	w.typ = gen.Pick(t, "type", object.Added, object.Updated, object.Upserted, object.Upserted, object.Replaced, object.Deleted, object.Deleted)
	k := gen.Pick(t, "name", names...)
	ns, name, _ := strings.Cut(k, "/")
	cur := model[id(gvk)+" "+k]
	if cur == nil && gen.Prob(t, 13, "create") {
		w.patcher, w.typ = false, object.Upserted
	}
	maps := w.patcher && w.typ == object.Deleted
	switch {
	case !w.patcher && w.typ == object.Deleted && gen.Bool(t, "bare"):
		w.delta = content(t, ns, name, false)
		for k := range w.delta {
			if k != "metadata" {
				delete(w.delta, k)
			}
		}
	case cur != nil && gen.Prob(t, 12, "derived"):
		w.delta = derivedDelta(t, cur, ns, name, w.patcher && w.typ != object.Deleted, maps)
	default:
		w.delta = content(t, ns, name, maps)
	}
	if gen.Prob(t, 3, "uid") {
		meta(w.delta)["uid"] = "other"
	}
	return w
}

func deltaObject(w Write) object.Delta {
	o := ref.CopyMap(w.delta)
	o["apiVersion"], o["kind"] = w.gvk.GroupVersion().String(), w.gvk.Kind
	return object.Delta{Type: w.typ, Object: gen.Obj(o)}
}

// write performs a write and checks that the arguments stay as they are.
func write(c *hx.Case, tg reconciler.Target, w Write, orig object.Object) error {
	d := deltaObject(w)
	before := ref.JSON(d.Object.Object)
	ob := ""
	if orig != nil {
		ob = ref.JSON(orig.Object)
	}
	var err error
	c.MustReturn("Write", time.Minute, func() { err = tg.Write(ctx, d, orig) })
	if s := ref.JSON(d.Object.Object); s != before {
		c.Failf("the write changed the delta to %s", s)
	}
	if orig != nil && ref.JSON(orig.Object) != ob {
		c.Failf("the write changed the original object to %s", ref.JSON(orig.Object))
	}
	if err == nil {
		gen.Scribble(d.Object.Object)
	}
	return err
}

// store reads everything from a store.
func store(c *hx.Case, cl client.Client, gvks []schema.GroupVersionKind) map[string]M {
	s := map[string]M{}
	for _, gvk := range gvks {
		l := &unstructured.UnstructuredList{}
		l.SetGroupVersionKind(schema.GroupVersionKind{Group: gvk.Group, Version: gvk.Version, Kind: gvk.Kind + "List"})
		if viewv1a1.IsViewKind(gvk) {
			l.SetGroupVersionKind(gvk)
		}
		if err := cl.List(ctx, l); err != nil {
			c.Failf("list: %v", err)
		}
		for i := range l.Items {
			s[id(gvk)+" "+key(l.Items[i].Object)] = l.Items[i].Object
		}
	}
	return s
}

var names = []string{"n1/a", "n1/b", "n2/a", "/a"}

// TestViews: histories of writes to views.
func TestViews(t *testing.T) {
	hx.Check(t, "1-14 writes of updating and patching targets with all delta types, deltas derived from the object (fields kept, changed, nulled, retyped, lists shorter and longer) or independent, original snapshots absent, current or stale, to 4 names of 2 views of an operator, while other operators hold views of the same kind; after each write the store equals the reference and repeating the write changes nothing; non-trivial: an update and a patch of an existing object that change it",
		hx.Scale(14000, 400000), func(c *hx.Case) {
			m, err := manager.NewFakeManager(manager.Options{})
			if err != nil {
				c.Failf("manager: %v", err)
			}
			cl := m.GetClient()
			gvks := []schema.GroupVersionKind{viewv1a1.GroupVersionKind("op", "V1"), viewv1a1.GroupVersionKind("op", "V2"), viewv1a1.GroupVersionKind("op2", "V1")}
			tgs := map[string]reconciler.Target{}
			for _, g := range gvks[:2] {
				tgs[g.Kind+"u"], tgs[g.Kind+"p"] = target(m, "op", g, false), target(m, "op", g, true)
			}
			foreign := gen.Obj(M{"metadata": M{"namespace": "n1", "name": "a"}, "a": "foreign"})
			foreign.SetGroupVersionKind(gvks[2])
			if err := cl.Create(ctx, foreign); err != nil {
				c.Failf("create: %v", err)
			}
			model := map[string]M{}
			var stale []object.Object
			upd, pat := false, false
			for i, n := 0, gen.Int(c.T, 1, 14, "steps"); i < n; i++ {
				w := drawWrite(c.T, gvks[gen.Int(c.T, 0, 1, "kind")], model, names)
				k := id(w.gvk) + " " + key(w.delta)
				cur := model[k]
				var orig object.Object
				how := "none"
				switch gen.Int(c.T, 0, 3, "original") {
				case 1:
					if cur != nil {
						orig, how = gen.Obj(ref.CopyMap(cur)), "current"
					}
				case 2:
					if len(stale) > 0 {
						o := stale[gen.Int(c.T, 0, len(stale)-1, "stale")]
						orig, how = gen.Obj(ref.CopyMap(o.Object)), "stale"
					}
				case 3:
					orig, how = gen.Obj(M{"apiVersion": w.gvk.GroupVersion().String(), "kind": w.gvk.Kind,
						"metadata": M{"namespace": meta(w.delta)["namespace"], "name": meta(w.delta)["name"], "labels": M{"stale": "yes"}}, "stale": "yes"}), "made up"
				}
				c.Step("%s (original: %s)", w, how)
				tgt := tgs[w.gvk.Kind+"u"]
				if w.patcher {
					tgt = tgs[w.gvk.Kind+"p"]
				}
				want, mayFail := w.apply(cur)
				for rep := 0; rep < 2; rep++ {
					before := store(c, cl, gvks)
					err := write(c, tgt, w, orig)
					if err != nil && !mayFail {
						c.Failf("error (repetition %d): %v", rep, err)
					}
					got := store(c, cl, gvks)
					exp := map[string]M{}
					for k, v := range before {
						exp[k] = v
					}
					delete(exp, k)
					if want != nil {
						x := ref.CopyMap(want)
						if g := got[k]; g != nil && cur == nil {
							// the store chooses the identity of a new object
							if u, ok := meta(g)["uid"]; ok {
								meta(x)["uid"] = u
							}
						}
						exp[k] = x
					}
					if a, b := dump(got), dump(exp); a != b {
						c.Failf("repetition %d: the store holds%s\n    want%s", rep, a, b)
					}
					if rep == 0 {
						if want != nil {
							if cur != nil && ref.JSON(clean(cur)) != ref.JSON(clean(exp[k])) {
								upd, pat = upd || !w.patcher, pat || w.patcher
								c.ClassIf(w.patcher && w.typ == object.Deleted, "delete-patch that removes something")
							}
							model[k] = got[k]
							cur = got[k]
							want, mayFail = w.apply(cur)
							stale = append(stale, gen.Obj(ref.CopyMap(got[k])))
						} else {
							c.ClassIf(cur == nil && w.patcher, "patch of an absent object")
							c.ClassIf(cur != nil, "deletion")
							delete(model, k)
							cur = nil
							want, mayFail = w.apply(cur)
						}
						if !gen.Prob(c.T, 6, "repeat") {
							break
						}
						// lists grow once, then a repeated patch is stable: the reference must agree
						if want != nil && model[k] != nil && ref.JSON(clean(want)) != ref.JSON(clean(model[k])) {
							c.Failf("the reference is not idempotent: %s, then %s", ref.JSON(model[k]), ref.JSON(want))
						}
					}
				}
			}
			c.NonTrivial(upd && pat)
			if s := store(c, cl, gvks[2:]); len(s) != 1 {
				c.Failf("another operator's view was changed: %s", dump(s))
			}
		})
}

// TestNative: histories of writes to native resources with concurrent changes and failures.
func TestNative(t *testing.T) {
	hx.Check(t, "1-8 writes as for views to a native type with a status subresource and to one without, on a client that keeps resource versions, ignores the status on create and update, and, for some writes, lets another client change the object just before an update, serves a stale copy or fails; a write without error leaves the object as the reference says, in one of the possible orders with the concurrent change, a failed one can be repeated with that result; non-trivial: an update or patch of an existing object that changes it while another client changes it, too, or that changes its status",
		hx.Scale(10000, 300000), func(c *hx.Case) {
			sch := runtime.NewScheme()
			gvks := []schema.GroupVersionKind{nativeGVK, plainGVK}
			for _, g := range gvks {
				sch.AddKnownTypeWithName(g, &unstructured.Unstructured{})
				sch.AddKnownTypeWithName(schema.GroupVersionKind{Group: g.Group, Version: g.Version, Kind: g.Kind + "List"}, &unstructured.UnstructuredList{})
			}
			st := &unstructured.Unstructured{}
			st.SetGroupVersionKind(nativeGVK)
			base := fake.NewClientBuilder().WithScheme(sch).WithStatusSubresource(st).Build()
			// faults of the next write
			var concurrent func()
			var staleObj M
			var fail error
			updates := 0
			count := 0
			cl := interceptor.NewClient(base, interceptor.Funcs{
				Get: func(cx context.Context, w client.WithWatch, k client.ObjectKey, o client.Object, opts ...client.GetOption) error {
					if s := staleObj; s != nil {
						staleObj = nil
						if u, ok := o.(*unstructured.Unstructured); ok {
							u.Object = ref.CopyMap(s)
							return nil
						}
					}
					return w.Get(cx, k, o, opts...)
				},
				Create: func(cx context.Context, w client.WithWatch, o client.Object, opts ...client.CreateOption) error {
					count++
					if fail != nil {
						return fail
					}
					if o.GetResourceVersion() == "" {
						o.SetUID("made")
					}
					if u, ok := o.(*unstructured.Unstructured); ok && u.GroupVersionKind() == nativeGVK {
						delete(u.Object, "status")
					}
					return w.Create(cx, o, opts...)
				},
				Update: func(cx context.Context, w client.WithWatch, o client.Object, opts ...client.UpdateOption) error {
					count++
					if fail != nil {
						return fail
					}
					updates++
					if f := concurrent; f != nil && updates == 1 {
						concurrent = nil
						f()
					}
					// the API server refuses a changed uid
					cur := &unstructured.Unstructured{}
					cur.SetGroupVersionKind(o.GetObjectKind().GroupVersionKind())
					if err := w.Get(cx, client.ObjectKeyFromObject(o), cur); err == nil && o.GetUID() != "" && o.GetUID() != cur.GetUID() {
						return apierrors.NewConflict(schema.GroupResource{}, o.GetName(), errors.New("uid"))
					}
					return w.Update(cx, o, opts...)
				},
				SubResourceUpdate: func(cx context.Context, w client.Client, sub string, o client.Object, opts ...client.SubResourceUpdateOption) error {
					if f := concurrent; f != nil {
						concurrent = nil
						f()
					}
					if o.GetObjectKind().GroupVersionKind() == plainGVK {
						return apierrors.NewNotFound(schema.GroupResource{Group: "example.com", Resource: "plains"}, o.GetName())
					}
					return w.SubResource(sub).Update(cx, o, opts...)
				},
			})
			fm, err := manager.NewFakeManager(manager.Options{})
			if err != nil {
				c.Failf("manager: %v", err)
			}
			m := &mgr{Manager: fm, c: composite(c, cl)}
			model := map[string]M{}
			old := map[string]M{}
			nt := false
			for i, n := 0, gen.Int(c.T, 1, 8, "steps"); i < n; i++ {
				w := drawWrite(c.T, gvks[gen.Int(c.T, 0, 5, "kind")/5], model, names[:3])
				k := id(w.gvk) + " " + key(w.delta)
				cur := model[k]
				tgt := target(m, "op", w.gvk, w.patcher)
				var orig object.Object
				how := "none"
				if cur != nil {
					switch gen.Int(c.T, 0, 2, "original") {
					case 1:
						orig, how = gen.Obj(ref.CopyMap(cur)), "current"
					case 2:
						if o := old[k]; o != nil && meta(o)["uid"] == meta(cur)["uid"] {
							orig, how = gen.Obj(ref.CopyMap(o)), "stale"
						}
					}
				}
				if gen.Prob(c.T, 2, "foreign original") {
					// the object that triggered the write is of another type and has the same name
					g := plainGVK
					if w.gvk == plainGVK {
						g = nativeGVK
					}
					o := M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "foreign": "yes",
						"metadata": M{"namespace": meta(w.delta)["namespace"], "name": meta(w.delta)["name"], "labels": M{"foreign": "yes"}}}
					if cur != nil {
						meta(o)["resourceVersion"] = meta(cur)["resourceVersion"]
					}
					orig, how = gen.Obj(o), "of another type"
				}
				fault := "no"
				concurrent, staleObj, fail, updates, count = nil, nil, nil, 0, 0
				switch gen.Int(c.T, 0, 9, "fault") {
				case 0, 1, 2:
					fault = "concurrent change"
				case 3:
					if o := old[k]; o != nil && cur != nil && meta(o)["uid"] == meta(cur)["uid"] {
						fault = "stale read"
						staleObj = ref.CopyMap(o)
					}
				case 4:
					fault = "failure"
					fail = apierrors.NewForbidden(schema.GroupResource{Group: "example.com", Resource: "x"}, "x", errors.New("no"))
					if gen.Bool(c.T, "invalid") {
						fail = apierrors.NewInternalError(errors.New("no"))
					}
				}
				c.Step("%s (original: %s, fault: %s)", w, how, fault)
				other := func(o M) M {
					o = ref.CopyMap(o)
					o["other"] = int64(i)
					if w.gvk == nativeGVK {
						// the status of another client
						s, ok := o["status"].(M)
						if !ok {
							s = M{}
						}
						s["other"] = int64(i)
						o["status"] = s
					}
					md := meta(o)
					a, _ := md["annotations"].(M)
					if a == nil {
						a = M{}
					}
					a["other"] = fmt.Sprint(i)
					md["annotations"] = a
					return o
				}
				fired := false
				if fault == "concurrent change" && cur != nil {
					concurrent = func() {
						fired = true
						u := &unstructured.Unstructured{}
						u.SetGroupVersionKind(w.gvk)
						ns, name, _ := strings.Cut(key(w.delta), "/")
						if err := base.Get(ctx, client.ObjectKey{Namespace: ns, Name: name}, u); err != nil {
							return
						}
						u.Object = other(u.Object)
						st := ref.Copy(u.Object["status"])
						if err := base.Update(ctx, u); err != nil {
							c.Failf("harness update: %v", err)
						}
						if w.gvk == nativeGVK {
							u.Object["status"] = st
							if err := base.Status().Update(ctx, u); err != nil {
								c.Failf("harness status update: %v", err)
							}
						}
					}
				}
				before := store(c, base, gvks)
				var errs []string
				ok := false
				for try := 0; try < 4 && !ok; try++ {
					err := write(c, tgt, w, orig)
					ok = err == nil
					if err != nil {
						errs = append(errs, err.Error())
						if fault == "no" {
							if _, may := w.apply(cur); may {
								break
							}
							c.Failf("error: %v", err)
						}
					} else if fail != nil && count > 0 {
						c.Failf("the failure was not reported")
					}
					fail, staleObj = nil, nil
				}
				_, mayFail := w.apply(cur)
				if !ok && !mayFail {
					c.Failf("keeps failing: %v", errs)
				}
				got := store(c, base, gvks)
				if got[k] != nil && cur != nil && meta(got[k])["uid"] != meta(cur)["uid"] {
					c.Failf("the object was replaced: %s", ref.JSON(got[k]))
				}
				wants := []M{}
				w1, _ := w.apply(cur)
				if fired {
					a, _ := w.apply(other(cur))
					wants = append(wants, a)
					if w1 != nil {
						wants = append(wants, other(w1))
					}
				} else {
					wants = append(wants, w1)
				}
				match := false
				texts := ""
				for _, want := range wants {
					exp := map[string]M{}
					for k, v := range before {
						exp[k] = v
					}
					delete(exp, k)
					if want != nil {
						x := ref.CopyMap(want)
						if cur == nil && got[k] != nil {
							meta(x)["uid"] = meta(got[k])["uid"]
						}
						exp[k] = x
					}
					match = match || dump(got) == dump(exp)
					texts += "\n    want" + dump(exp)
				}
				if !match {
					c.Failf("the store holds%s%s", dump(got), texts)
				}
				c.ClassIf(fired, "concurrent change")
				c.ClassIf(len(errs) > 0 && ok, "failed, then repeated")
				c.ClassIf(how == "stale" && w.patcher, "stale original")
				if g := got[k]; g != nil && cur != nil && ref.JSON(clean(g)) != ref.JSON(clean(cur)) {
					nt = nt || fired || (w.gvk == nativeGVK && ref.JSON(g["status"]) != ref.JSON(cur["status"]))
				}
				if cur != nil {
					old[k] = cur
				}
				delete(model, k)
				if got[k] != nil {
					model[k] = got[k]
				} else {
					delete(old, k) // the fake client starts the versions of a new object again
				}
			}
			c.NonTrivial(nt)
		})
}

// TestConcurrent: patches of several controllers to one object, together with other writers.
func TestConcurrent(t *testing.T) {
	hx.Check(t, "2-5 goroutines patch one view object through their own targets, each its own fields with a rising counter and with no or stale original snapshots, one of them removing fields again, while other goroutines merge labels through the view client and update the object's status field; in the end every last write is there and nothing is lost; non-trivial: at least 3 writers",
		hx.Scale(3000, 60000), func(c *hx.Case) {
			m, err := manager.NewFakeManager(manager.Options{})
			if err != nil {
				c.Failf("manager: %v", err)
			}
			cl := m.GetClient()
			gvk := viewv1a1.GroupVersionKind("op", "V")
			mk := func(content M) object.Object {
				o := object.NewViewObject("op", "V")
				object.SetName(o, "n", "a")
				for k, v := range content {
					o.Object[k] = v
				}
				return o
			}
			if err := cl.Create(ctx, mk(M{"base": "x"})); err != nil {
				c.Failf("create: %v", err)
			}
			first := mk(nil)
			if err := cl.Get(ctx, client.ObjectKeyFromObject(first), first); err != nil {
				c.Failf("get: %v", err)
			}
			np, nl := gen.Int(c.T, 2, 5, "patchers"), gen.Int(c.T, 0, 2, "labellers")
			rounds := gen.Int(c.T, 1, 6, "rounds")
			staleOrig := gen.Bool(c.T, "stale")
			removing := gen.Bool(c.T, "removing")
			c.Step("patchers %d, labellers %d, rounds %d, stale originals %v, removing %v", np, nl, rounds, staleOrig, removing)
			errc := make(chan error, 1000)
			var wg sync.WaitGroup
			for p := 0; p < np; p++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					tgt := target(m, "op", gvk, true)
					var orig object.Object
					if staleOrig {
						orig = object.DeepCopy(first)
					}
					f := fmt.Sprintf("f%d", p)
					for r := 1; r <= rounds; r++ {
						d := object.Delta{Type: object.Upserted, Object: mk(M{"shared": M{f: int64(r)}, f: int64(r)})}
						if err := tgt.Write(ctx, d, orig); err != nil {
							errc <- err
						}
						if removing && p == 0 {
							if err := tgt.Write(ctx, object.Delta{Type: object.Deleted, Object: d.Object}, orig); err != nil {
								errc <- err
							}
						}
					}
				}()
			}
			for l := 0; l < nl; l++ {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for r := 1; r <= rounds; r++ {
						b := []byte(fmt.Sprintf(`{"metadata":{"labels":{"l%d":"%d"}}}`, l, r))
						if err := cl.Patch(ctx, mk(nil), client.RawPatch("application/merge-patch+json", b)); err != nil {
							errc <- err
						}
					}
				}()
			}
			c.MustReturn("concurrent writes", 2*time.Minute, wg.Wait)
			select {
			case err := <-errc:
				c.Failf("error: %v", err)
			default:
			}
			got := mk(nil)
			if err := cl.Get(ctx, client.ObjectKeyFromObject(got), got); err != nil {
				c.Failf("get: %v", err)
			}
			want := M{"base": "x"}
			shared := M{}
			for p := 0; p < np; p++ {
				if removing && p == 0 {
					continue
				}
				f := fmt.Sprintf("f%d", p)
				want[f], shared[f] = int64(rounds), int64(rounds)
			}
			want["shared"] = shared
			wl := M{}
			for l := 0; l < nl; l++ {
				wl[fmt.Sprintf("l%d", l)] = fmt.Sprint(rounds)
			}
			gl := nested(got.Object, "labels")
			if gl == nil {
				gl = M{}
			}
			g := ref.CopyMap(got.Object)
			for _, k := range []string{"metadata", "apiVersion", "kind"} {
				delete(g, k)
			}
			if ref.JSON(g) != ref.JSON(want) || ref.JSON(gl) != ref.JSON(wl) {
				c.Failf("the object is %s with labels %s, want %s with %s", ref.JSON(g), ref.JSON(gl), ref.JSON(want), ref.JSON(wl))
			}
			c.NonTrivial(np+nl >= 3)
			c.Key("%d %d %d %v %v", np, nl, rounds, staleOrig, removing)
		})
}
