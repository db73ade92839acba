package gen

import (
	"fmt"
	"sort"
	"strings"

	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/object"
	"k8s.io/apimachinery/pkg/runtime/schema"
)

// Operator of the generated views.
const Operator = "test"

// GVK of a view kind.
func GVK(kind string) schema.GroupVersionKind {
	return schema.GroupVersionKind{Group: Operator + ".view.dcontroller.io", Version: "v1alpha1", Kind: kind}
}

// World is the model of the source objects.
type World struct {
	Kinds    []string
	ListMaps bool
	Objs     map[string]map[string]M // kind -> ns/name -> content
	rv       int
	Cluster  bool // the objects have no namespaces
	Rich     bool // some objects have the metadata that API servers add
}

// NewWorld makes an empty world.
func NewWorld(kinds []string, listMaps bool) *World {
	w := &World{Kinds: kinds, ListMaps: listMaps, Objs: map[string]map[string]M{}}
	for _, k := range kinds {
		w.Objs[k] = map[string]M{}
	}
	return w
}

// Clone makes an independent copy of the model.
func (w *World) Clone() *World {
	c := NewWorld(w.Kinds, w.ListMaps)
	c.rv, c.Cluster, c.Rich = w.rv, w.Cluster, w.Rich
	for k, m := range w.Objs {
		for key, o := range m {
			c.Objs[k][key] = ref.CopyMap(o)
		}
	}
	return c
}

// Event is a source event.
type Event struct {
	Type   object.DeltaType
	Kind   string
	Key    string
	Object M
	Note   string
}

func (e Event) String() string {
	return fmt.Sprintf("%s %s %s %s", e.Type, e.Kind, e.Note, ref.Canon(e.Object))
}

// Delta converts the event to a delta with a private copy of the content.
// Half of the objects carry a UID, which pipelines must ignore.
func (e Event) Delta() object.Delta {
	c := ref.CopyMap(e.Object)
	if meta, ok := c["metadata"].(M); ok && (strings.HasSuffix(e.Key, "1") || strings.HasSuffix(e.Key, "3")) {
		meta["uid"] = "uid-" + e.Kind + "-" + e.Key
	}
	return object.Delta{Type: e.Type, Object: Obj(c)}
}

func sortedKeys(m map[string]M) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// Sources returns the current sources for the reference evaluation.
func (w *World) Sources() []ref.Source {
	ret := []ref.Source{}
	for _, k := range w.Kinds {
		s := ref.Source{Kind: k}
		for _, key := range sortedKeys(w.Objs[k]) {
			s.Docs = append(s.Docs, w.Objs[k][key])
		}
		ret = append(ret, s)
	}
	return ret
}

// Size is the number of objects.
func (w *World) Size() int {
	n := 0
	for _, m := range w.Objs {
		n += len(m)
	}
	return n
}

func setRV(w *World, m M) {
	w.rv++
	m["metadata"].(M)["resourceVersion"] = fmt.Sprintf("%d", w.rv)
}

// richMeta adds metadata of the kinds that API servers maintain.
func richMeta(t T, meta M) {
	if Prob(t, 6, "deleting") {
		meta["deletionTimestamp"] = Pick(t, "when", "2026-01-02T03:04:05Z", "2026-01-02T03:04:06Z")
		meta["deletionGracePeriodSeconds"] = int64(Int(t, 0, 1, "grace")) * 30
	}
	if Bool(t, "fin") {
		meta["finalizers"] = L{Pick(t, "finv", "x.io/a", "x.io/b")}
	}
	if Bool(t, "owner") {
		meta["ownerReferences"] = L{M{"apiVersion": "v1", "kind": "ConfigMap", "name": Pick(t, "ownerv", "o1", "o2"), "uid": "u"}}
	}
	if Bool(t, "gen") {
		meta["generation"] = int64(Int(t, 1, 2, "genv"))
	}
	if Bool(t, "created") {
		meta["creationTimestamp"] = "2026-01-01T00:00:00Z"
	}
	if Bool(t, "fields") {
		meta["managedFields"] = L{M{"manager": "m", "operation": "Update", "time": Pick(t, "mf", "2026-01-01T00:00:00Z", "2026-01-01T00:00:01Z")}}
	}
}

// touch changes one field: some of the content, or just something that API servers do not count as a change of the
// specification.
func (w *World) touch(t T, c M) {
	meta := c["metadata"].(M)
	sub := func(m M, k string) M {
		if _, ok := m[k].(M); !ok {
			m[k] = M{}
		}
		return m[k].(M)
	}
	n := 0
	if w.Rich {
		n = Int(t, 0, 5, "what")
	}
	switch n {
	case 3:
		sub(meta, "labels")["app"] = Pick(t, "appv", "web", "db")
	case 4:
		sub(meta, "annotations")["note"] = Pick(t, "ann", "u", "v")
	case 5:
		sub(c, "status")["phase"] = Pick(t, "phase", "up", "down")
	default:
		c["spec"].(M)["a"] = int64(Int(t, 0, 3, "na"))
	}
}

// Draw draws the next valid event and applies it to the model.
func (w *World) Draw(t T, withRV bool) Event {
	kind := Pick(t, "kind", w.Kinds...)
	objs := w.Objs[kind]
	keys := sortedKeys(objs)
	op := Int(t, 0, 9, "op")
	if len(keys) == 0 && op > 2 {
		op = 0
	}
	ns := Pick(t, "ns", "default", "other")
	if w.Cluster {
		ns = ""
	}
	name := Pick(t, "name", "n0", "n1", "n2", "n3")
	fresh := func() M {
		m := SrcContent(t, kind, GVK(kind).Group, ns, name, w.ListMaps)
		if withRV {
			setRV(w, m)
		}
		if w.Rich && Prob(t, 3, "rich") {
			richMeta(t, m["metadata"].(M))
		}
		return m
	}
	switch {
	case op <= 2: // add or upsert
		key := ns + "/" + name
		typ := object.Added
		if _, ok := objs[key]; ok {
			typ = Pick(t, "typ", object.Updated, object.Upserted, object.Replaced)
		} else if Prob(t, 4, "ups") {
			typ = object.Upserted
		}
		m := fresh()
		objs[key] = ref.CopyMap(m)
		return Event{Type: typ, Kind: kind, Key: key, Object: m}
	case op <= 5: // update
		key := Pick(t, "key", keys...)
		ns, name = split(key)
		m := fresh()
		if Prob(t, 6, "small") {
			// change one field only
			c := ref.CopyMap(objs[key])
			w.touch(t, c)
			if withRV {
				setRV(w, c)
			}
			m = c
		}
		objs[key] = ref.CopyMap(m)
		return Event{Type: Pick(t, "typ", object.Updated, object.Upserted, object.Replaced), Kind: kind, Key: key, Object: m}
	case op == 6: // no-op update
		key := Pick(t, "key", keys...)
		return Event{Type: Pick(t, "typ", object.Updated, object.Upserted, object.Replaced), Kind: kind, Key: key,
			Object: ref.CopyMap(objs[key]), Note: "(no-op)"}
	case op == 7: // delete with stale content
		key := Pick(t, "key", keys...)
		ns, name = split(key)
		m := fresh()
		delete(objs, key)
		return Event{Type: object.Deleted, Kind: kind, Key: key, Object: m, Note: "(stale)"}
	default: // delete
		key := Pick(t, "key", keys...)
		m := objs[key]
		delete(objs, key)
		return Event{Type: object.Deleted, Kind: kind, Key: key, Object: m}
	}
}

// DeleteAll draws an event deleting some object; ok is false if none is left.
func (w *World) DeleteAll() (Event, bool) {
	for _, k := range w.Kinds {
		for _, key := range sortedKeys(w.Objs[k]) {
			m := w.Objs[k][key]
			delete(w.Objs[k], key)
			return Event{Type: object.Deleted, Kind: k, Key: key, Object: m}, true
		}
	}
	return Event{}, false
}

func split(key string) (string, string) {
	for i := range key {
		if key[i] == '/' {
			return key[:i], key[i+1:]
		}
	}
	return "", key
}

// Target is the model of the target: ns/name -> content.
type Target map[string]M

// Apply applies emitted deltas in order; it returns a complaint about a malformed delta.
func (tg Target) Apply(ds []object.Delta) string {
	for _, d := range ds {
		key := d.Object.GetNamespace() + "/" + d.Object.GetName()
		switch d.Type {
		case object.Upserted, object.Added, object.Updated, object.Replaced:
			tg[key] = ref.CopyMap(d.Object.Object)
		case object.Deleted:
			delete(tg, key)
		default:
			return "delta of type " + string(d.Type)
		}
	}
	return ""
}

// Want is the required target: for each key the documents that map to it.
type Want map[string][]M

// Expect converts the reference result to the required target.
func Expect(bag ref.Bag, target schema.GroupVersionKind) Want {
	w := Want{}
	for _, d := range bag {
		c := ref.CopyMap(d)
		c["kind"] = target.Kind
		c["apiVersion"] = target.GroupVersion().String()
		meta, _ := c["metadata"].(M)
		ns, _ := meta["namespace"].(string)
		name, _ := meta["name"].(string)
		key := ns + "/" + name
		w[key] = append(w[key], c)
	}
	return w
}

// Norm is a canonical form of an object; lists are compared up to order if sortLists is set.
func Norm(m M, sortLists bool) string {
	c := ref.CopyMap(m)
	if sortLists {
		ref.SortLists(c)
	}
	return ref.Canon(c)
}

// Diff compares the required target with the actual one. If several documents map to a key then
// the object must be one of them.
func Diff(want Want, got Target, sortLists bool) string {
	keys := make([]string, 0, len(want))
	for k := range want {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("target lacks %s\n  want %s", k, Norm(want[k][0], sortLists))
		}
		found := false
		for _, c := range want[k] {
			found = found || Norm(g, sortLists) == Norm(c, sortLists)
		}
		if !found {
			return fmt.Sprintf("target object %s differs\n  want %s\n  got  %s", k, Norm(want[k][0], sortLists), Norm(g, sortLists))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("target has %s which should not exist: %s", k, Norm(got[k], sortLists))
		}
	}
	return ""
}
