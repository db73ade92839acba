// Package kube runs a real Kubernetes API server and etcd on the loopback interface, and describes
// controllers that work on its objects, together with a model of what they must do.
package kube

import (
	"context"
	"encoding/base64"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	clientgoscheme "k8s.io/client-go/kubernetes/scheme"
	"k8s.io/client-go/rest"
	"sigs.k8s.io/controller-runtime/pkg/client"
	"sigs.k8s.io/controller-runtime/pkg/envtest"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/cache"
	"github.com/l7mp/dcontroller/pkg/object"
)

type M = gen.M
type L = gen.L

var bg = context.Background()

var (
	once   sync.Once
	env    *envtest.Environment
	Cfg    *rest.Config
	Client client.Client
	Scheme = runtime.NewScheme()
	reason string
)

// Namespaces are the namespaces the tests work in.
var Namespaces = []string{"ns1", "ns2"}

// Names are the names of the users' objects.
var Names = []string{"a", "b", "c"}

// Start starts the API server once; the test is skipped if there is none on this machine.
func Start(t *testing.T) {
	if !hx.FirstShard() {
		t.Skip("runs in the first process only")
	}
	once.Do(func() {
		for i := 0; i < 2; i++ {
			if reason = start(); reason == "" {
				return
			}
		}
	})
	if reason != "" {
		fmt.Printf("NOTE: no Kubernetes API server, %s is not run: %s\n", t.Name(), reason)
		t.Skip(reason)
	}
}

func start() string {
	dir := "/opt/vp/envtest/bin"
	if x := os.Getenv("KUBEBUILDER_ASSETS"); x != "" {
		dir = x
	}
	for _, f := range []string{"etcd", "kube-apiserver"} {
		if _, err := os.Stat(filepath.Join(dir, f)); err != nil {
			return err.Error()
		}
	}
	repo := os.Getenv("VERIF_REPO")
	if repo == "" {
		repo = "/repo"
	}
	_ = clientgoscheme.AddToScheme(Scheme)
	_ = opv1a1.AddToScheme(Scheme)
	e := &envtest.Environment{
		BinaryAssetsDirectory:    dir,
		CRDDirectoryPaths:        []string{filepath.Join(repo, "config", "crd", "resources")},
		ErrorIfCRDPathMissing:    true,
		ControlPlaneStartTimeout: 90 * time.Second,
		ControlPlaneStopTimeout:  60 * time.Second,
	}
	cfg, err := e.Start()
	if err != nil {
		_ = e.Stop()
		return err.Error()
	}
	env = e
	cfg.QPS, cfg.Burst = 2000, 4000
	Cfg = cfg
	if Client, err = client.New(cfg, client.Options{Scheme: Scheme}); err != nil {
		return err.Error()
	}
	for _, ns := range Namespaces {
		if err := Client.Create(bg, &corev1.Namespace{ObjectMeta: metav1.ObjectMeta{Name: ns}}); err != nil {
			return err.Error()
		}
	}
	return ""
}

// Config returns a configuration file for the API server.
func Config() []byte { return env.KubeConfig }

// Stop stops the API server.
func Stop() {
	if env != nil {
		_ = env.Stop()
		env = nil
	}
}

// World is what users have written.
type World struct {
	C     *hx.Case
	API   *cache.API
	Views client.Client
	CMs   map[string]M // ns/name -> the users' content of the configmaps with role=src
	Secs  map[string]M
	Alpha map[string]M
	Fixed bool // configmaps are not created or deleted any more
	stop  context.CancelFunc
}

// New creates an empty world: what earlier cases left is removed.
func New(c *hx.Case) *World {
	api, err := cache.NewAPI(Cfg, cache.APIOptions{CacheOptions: cache.CacheOptions{Logger: hx.Log()}})
	if err != nil {
		c.Failf("cannot create the shared cache: %v", err)
	}
	ctx, cancel := context.WithCancel(bg)
	go func() { _ = api.Cache.Start(ctx) }()
	w := &World{C: c, API: api, CMs: map[string]M{}, Secs: map[string]M{}, Alpha: map[string]M{}, stop: cancel}
	w.Views = api.Cache.(*cache.CompositeCache).GetViewCache().GetClient()
	Clean()
	return w
}

// Close ends the shared cache.
func (w *World) Close() { w.stop() }

// Clean removes all objects.
func Clean() {
	_ = Client.DeleteAllOf(bg, &opv1a1.Operator{})
	for i := 0; i < 50; i++ {
		left := 0
		for _, ns := range Namespaces {
			_ = Client.DeleteAllOf(bg, &corev1.ConfigMap{}, client.InNamespace(ns))
			_ = Client.DeleteAllOf(bg, &corev1.Secret{}, client.InNamespace(ns))
			l := &corev1.ConfigMapList{}
			if err := Client.List(bg, l, client.InNamespace(ns)); err != nil {
				left++
			}
			left += len(l.Items)
		}
		if left == 0 {
			return
		}
		time.Sleep(20 * time.Millisecond)
	}
}

// Forms of controllers.
const (
	Copy    = "configmaps -> configmaps"
	ToView  = "configmaps -> view"
	OfView  = "view -> configmaps"
	Patch   = "configmaps -> patched configmaps"
	Secret  = "secrets -> view"
	Joined  = "configmaps x view -> configmaps"
	PatchBy = "view -> patched configmaps"
)

// Forms lists all forms.
var Forms = []string{Copy, ToView, OfView, Patch, Secret, Joined, PatchBy}

// Ctl is a controller on native objects.
type Ctl struct {
	Op, Name, Form string
	Tag            string // unique: target names, view kinds and patched fields contain it
	Cond           any
	NS             string // namespace filter
	Inc            int64
}

// Draw draws a controller. If the configmaps are not fixed then it has no patches by views.
func Draw(c *hx.Case, op, name, tag string, fixed bool) Ctl {
	forms := Forms
	if !fixed {
		forms = forms[:len(forms)-1]
	}
	k := Ctl{Op: op, Name: name, Tag: tag, Form: gen.Pick(c.T, "form", forms...)}
	k.NS = gen.Pick(c.T, "nsfilter", "", "", "", "ns1", "ns2")
	f := "$.data.k"
	switch k.Form {
	case OfView, PatchBy:
		f = "$.spec.b"
	case Joined:
		f = "$.ConfigMap.data.k"
	}
	k.Cond = gen.Pick[any](c.T, "cond", nil, nil, M{"@not": M{"@eq": L{f, "x"}}}, M{"@in": L{f, L{"x", "y"}}}, M{"@eq": L{f, "z"}})
	if k.Form == Secret {
		k.Cond = gen.Pick[any](c.T, "cond", nil, M{"@not": M{"@eq": L{f, "x"}}})
	}
	k.Inc = int64(gen.Int(c.T, 1, 3, "inc"))
	return k
}

func (k Ctl) String() string {
	return fmt.Sprintf("controller %s of %s (%s): %s, namespace %q, if %s, plus %d", k.Name, k.Op, k.Tag, k.Form, k.NS, ref.Canon(k.Cond), k.Inc)
}

func (k Ctl) stages() []ref.Stage {
	r := []ref.Stage{}
	if k.Form == Joined {
		r = append(r, ref.Stage{"@join": M{"@eq": L{"$.ConfigMap.metadata.namespace", "$.Alpha.metadata.namespace"}}})
	}
	if k.Cond != nil {
		r = append(r, ref.Stage{"@select": k.Cond})
	}
	out := func(root string) M {
		return M{"name": M{"@concat": L{"out-" + k.Tag + "-", "$." + root + "metadata.name"}}, "namespace": "$." + root + "metadata.namespace",
			"labels": M{"role": "out", "tag": k.Tag}}
	}
	same := M{"name": "$.metadata.name", "namespace": "$.metadata.namespace"}
	plus := fmt.Sprintf("+%d", k.Inc)
	switch k.Form {
	case Copy:
		r = append(r, ref.Stage{"@project": M{"metadata": out(""), "data": M{"k": "$.data.k", "v": M{"@concat": L{"$.data.k", plus}}}}})
	case ToView:
		r = append(r, ref.Stage{"@project": M{"metadata": same, "spec": M{"k": "$.data.k", "v": M{"@concat": L{"$.data.k", plus}}}}})
	case OfView:
		r = append(r, ref.Stage{"@project": M{"metadata": out(""), "data": M{"b": "$.spec.b", "a": M{"@string": M{"@add": L{"$.spec.a", k.Inc}}}}}})
	case Patch:
		r = append(r, ref.Stage{"@project": M{"metadata": M{"name": "$.metadata.name", "namespace": "$.metadata.namespace", "annotations": M{"due-" + k.Tag: "$.data.k"}},
			"data": M{"due-" + k.Tag: M{"@concat": L{"$.data.k", plus}}}}})
	case PatchBy:
		r = append(r, ref.Stage{"@project": M{"metadata": same, "data": M{"by-" + k.Tag: M{"@concat": L{"$.spec.b", plus}}}}})
	case Secret:
		r = append(r, ref.Stage{"@project": M{"metadata": same, "spec": M{"k": "$.data.k", "v": M{"@concat": L{"$.data.k", plus}}}}})
	case Joined:
		m := out("ConfigMap.")
		m["name"] = M{"@concat": L{"out-" + k.Tag + "-", "$.ConfigMap.metadata.name", "-", "$.Alpha.metadata.name"}}
		r = append(r, ref.Stage{"@project": M{"metadata": m, "data": M{"k": "$.ConfigMap.data.k", "b": "$.Alpha.spec.b"}}})
	}
	return r
}

// Target is the kind of the target view, or "".
func (k Ctl) Target() string {
	if k.Form == ToView || k.Form == Secret {
		return "V" + strings.ReplaceAll(k.Tag, "-", "")
	}
	return ""
}

// Spec is the specification.
func (k Ctl) Spec(c *hx.Case) opv1a1.Controller {
	p, err := gen.Pipeline(k.stages())
	if err != nil {
		c.Failf("pipeline rejected: %v", err)
	}
	s := opv1a1.Controller{Name: k.Name, Pipeline: p}
	core, v1 := "", "v1"
	native := func(kind string) opv1a1.Resource { return opv1a1.Resource{Group: &core, Version: &v1, Kind: kind} }
	src := opv1a1.Source{LabelSelector: &metav1.LabelSelector{MatchLabels: map[string]string{"role": "src"}}}
	if k.NS != "" {
		src.Namespace = &k.NS
	}
	base := "base.view.dcontroller.io"
	alpha := opv1a1.Source{Resource: opv1a1.Resource{Group: &base, Kind: "Alpha"}, Namespace: src.Namespace}
	src.Resource = native("ConfigMap")
	switch k.Form {
	case OfView, PatchBy:
		src = alpha
	case Secret:
		src.Resource = native("Secret")
	}
	s.Sources = []opv1a1.Source{src}
	if k.Form == Joined {
		s.Sources = append(s.Sources, alpha)
	}
	if t := k.Target(); t != "" {
		s.Target.Resource = opv1a1.Resource{Kind: t}
	} else {
		s.Target.Resource = native("ConfigMap")
	}
	if k.Form == Patch || k.Form == PatchBy {
		s.Target.Type = opv1a1.Patcher
	}
	return s
}

func in(ns string, objs map[string]M) []map[string]any {
	ks := []string{}
	for k := range objs {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	r := []map[string]any{}
	for _, k := range ks {
		if ns == "" || strings.HasPrefix(k, ns+"/") {
			r = append(r, ref.CopyMap(objs[k]))
		}
	}
	return r
}

func decoded(objs map[string]M) map[string]M {
	r := map[string]M{}
	for k, m := range objs {
		m = ref.CopyMap(m)
		if d, ok := m["data"].(M); ok {
			for f, v := range d {
				if b, err := base64.StdEncoding.DecodeString(v.(string)); err == nil {
					d[f] = string(b)
				}
			}
		}
		r[k] = m
	}
	return r
}

// results evaluates the controller on the users' content.
func (w *World) results(k Ctl) []map[string]any {
	srcs := []ref.Source{{Kind: "ConfigMap", Docs: in(k.NS, w.CMs)}}
	alpha := ref.Source{Kind: "Alpha", Docs: in(k.NS, w.Alpha)}
	switch k.Form {
	case OfView, PatchBy:
		srcs = []ref.Source{alpha}
	case Secret:
		srcs = []ref.Source{{Kind: "Secret", Docs: in(k.NS, decoded(w.Secs))}}
	case Joined:
		srcs = append(srcs, alpha)
	}
	bag, err := ref.RunPipeline(k.stages(), srcs)
	if err != nil {
		w.C.Fatalf("harness: %v", err)
	}
	return bag
}

func key(m M) string {
	meta := m["metadata"].(M)
	return fmt.Sprintf("%v/%v", meta["namespace"], meta["name"])
}

// essence is the comparable part of a configmap.
func essence(m M) M {
	r := M{}
	if d, ok := m["data"].(M); ok && len(d) > 0 {
		r["data"] = ref.CopyMap(d)
	}
	meta, _ := m["metadata"].(M)
	for _, f := range []string{"labels", "annotations"} {
		if x, ok := meta[f].(M); ok && len(x) > 0 {
			r[f] = ref.CopyMap(x)
		}
	}
	return r
}

// Check compares the cluster and the views with what the controllers have to do. Traces of the
// controllers with other tags are not looked at.
func (w *World) Check(ks ...Ctl) string {
	want, got := map[string]M{}, map[string]M{}
	tags := map[string]bool{}
	for _, k := range ks {
		tags[k.Tag] = true
	}
	for k, m := range w.CMs {
		want[k] = essence(m)
	}
	for _, k := range ks {
		if k.Target() != "" {
			continue
		}
		for _, d := range w.results(k) {
			id := key(d)
			switch k.Form {
			case Patch, PatchBy:
				if cur, ok := want[id]; ok {
					want[id] = essence(ref.Patch(M{"data": cur["data"], "metadata": M{"labels": cur["labels"], "annotations": cur["annotations"]}}, M{"data": d["data"], "metadata": d["metadata"]}).(M))
				}
			default:
				want[id] = essence(d)
			}
		}
	}
	for k, m := range w.ConfigMaps() {
		lab, _ := m["labels"].(M)
		if lab["role"] == "out" && !tags[fmt.Sprint(lab["tag"])] {
			continue
		}
		for _, part := range []string{"data", "annotations"} {
			if x, ok := m[part].(M); ok {
				for f := range x {
					for _, pre := range []string{"due-", "by-"} {
						if strings.HasPrefix(f, pre) && !tags[strings.TrimPrefix(f, pre)] {
							delete(x, f)
						}
					}
				}
				if len(x) == 0 {
					delete(m, part)
				}
			}
		}
		got[k] = m
	}
	if d := diff(want, got); d != "" {
		return "configmaps: " + d
	}
	for _, k := range ks {
		if k.Target() == "" {
			continue
		}
		want := map[string]M{}
		for _, d := range w.results(k) {
			want[key(d)] = M{"spec": d["spec"]}
		}
		if d := diff(want, w.View(k.Op, k.Target())); d != "" {
			return fmt.Sprintf("view %s of %s: %s", k.Target(), k.Op, d)
		}
	}
	return ""
}

// Traces is the present state of what a controller has written.
func (w *World) Traces(k Ctl) map[string]string {
	r := map[string]string{}
	if k.Target() != "" {
		for id, m := range w.View(k.Op, k.Target()) {
			r["view "+id] = ref.Canon(m)
		}
		return r
	}
	for id, m := range w.ConfigMaps() {
		if lab, _ := m["labels"].(M); lab["tag"] == k.Tag {
			r["configmap "+id] = ref.Canon(m)
		}
		for _, part := range []string{"data", "annotations"} {
			if x, ok := m[part].(M); ok {
				for f, v := range x {
					if f == "due-"+k.Tag || f == "by-"+k.Tag {
						r[part+" of configmap "+id] = ref.Canon(v)
					}
				}
			}
		}
	}
	return r
}

// Worked tells how traces show that the controller has worked since earlier traces were taken.
// Patches disappear along with the users' objects.
func Worked(before, after map[string]string) string {
	for id, v := range after {
		if old, ok := before[id]; !ok || old != v {
			return fmt.Sprintf("%s: was %s, is %s", id, old, v)
		}
	}
	for id, v := range before {
		if _, ok := after[id]; !ok && (strings.HasPrefix(id, "view ") || strings.HasPrefix(id, "configmap ")) {
			return fmt.Sprintf("%s: was %s, is gone", id, v)
		}
	}
	return ""
}

func diff(want, got map[string]M) string {
	ids := map[string]bool{}
	for k := range want {
		ids[k] = true
	}
	for k := range got {
		ids[k] = true
	}
	ks := []string{}
	for k := range ids {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		g, ok := got[k]
		x, ok2 := want[k]
		if ok && !ok2 {
			return fmt.Sprintf("%s should not exist: %s", k, ref.Canon(g))
		}
		if !ok {
			return fmt.Sprintf("%s is missing, expected %s", k, ref.Canon(x))
		}
		if ref.Canon(x) != ref.Canon(g) {
			return fmt.Sprintf("%s: want %s, got %s", k, ref.Canon(x), ref.Canon(g))
		}
	}
	return ""
}

// ConfigMaps lists the essence of the configmaps.
func (w *World) ConfigMaps() map[string]M {
	r := map[string]M{}
	for _, ns := range Namespaces {
		l := &unstructured.UnstructuredList{}
		l.SetGroupVersionKind(schema.GroupVersionKind{Version: "v1", Kind: "ConfigMapList"})
		if err := Client.List(bg, l, client.InNamespace(ns)); err != nil {
			w.C.Fatalf("harness: %v", err)
		}
		for i := range l.Items {
			r[key(l.Items[i].Object)] = essence(l.Items[i].Object)
		}
	}
	return r
}

// View lists the specs of a view.
func (w *World) View(op, kind string) map[string]M {
	l := cache.NewViewObjectList(op, kind)
	if err := w.Views.List(bg, l); err != nil {
		w.C.Failf("cannot list view %s: %v", kind, err)
	}
	r := map[string]M{}
	for i := range l.Items {
		r[key(l.Items[i].Object)] = M{"spec": ref.Copy(l.Items[i].Object["spec"])}
	}
	return r
}

// Fill creates all configmaps and fixes their number: a patch by a view is due when the view
// changes, not when the patched object appears.
func (w *World) Fill() {
	for _, ns := range Namespaces {
		for _, name := range Names {
			m := M{"apiVersion": "v1", "kind": "ConfigMap", "metadata": M{"name": name, "namespace": ns, "labels": M{"role": "src"}}, "data": M{"k": "x"}}
			if err := Client.Create(bg, &unstructured.Unstructured{Object: ref.CopyMap(m)}); err != nil {
				w.C.Fatalf("harness: %v", err)
			}
			w.CMs[ns+"/"+name] = m
		}
	}
	w.Fixed = true
	w.C.Step("all configmaps exist")
}

// Change makes a random change.
func (w *World) Change() {
	c := w.C
	ns, name := gen.Pick(c.T, "ns", Namespaces...), gen.Pick(c.T, "name", Names...)
	id := ns + "/" + name
	val := func() string { return gen.Pick(c.T, "val", "x", "y", "z", "w") }
	obj := func(m M) object.Object { return &unstructured.Unstructured{Object: ref.CopyMap(m)} }
	fail := func(what string, err error) {
		if err != nil {
			c.Fatalf("harness: %s: %v", what, err)
		}
	}
	switch kind := gen.Pick(c.T, "kind", "ConfigMap", "ConfigMap", "ConfigMap", "Alpha", "Alpha", "Secret"); kind {
	case "Alpha":
		_, exists := w.Alpha[id]
		if exists && gen.Prob(c.T, 4, "del") {
			c.Step("delete view object %s", id)
			fail("delete", w.Views.Delete(bg, obj(w.Alpha[id])))
			delete(w.Alpha, id)
			return
		}
		m := M{"apiVersion": "base.view.dcontroller.io/v1alpha1", "kind": "Alpha", "metadata": M{"name": name, "namespace": ns},
			"spec": M{"a": int64(gen.Int(c.T, 0, 3, "a")), "b": val()}}
		c.Step("put view object %s: %s", id, ref.Canon(m["spec"]))
		fail("put", w.Views.Create(bg, obj(m)))
		w.Alpha[id] = m
	default:
		objs, enc := w.CMs, func(s string) string { return s }
		if kind == "Secret" {
			objs, enc = w.Secs, func(s string) string { return base64.StdEncoding.EncodeToString([]byte(s)) }
		}
		old, exists := objs[id]
		m := M{"apiVersion": "v1", "kind": kind, "metadata": M{"name": name, "namespace": ns, "labels": M{"role": "src"}},
			"data": M{"k": enc(val()), "other": enc(val())}}
		if gen.Prob(c.T, 4, "ann") {
			m["metadata"].(M)["annotations"] = M{"user": "u"}
		}
		switch {
		case !exists:
			c.Step("create %s %s: %s", kind, id, ref.Canon(m["data"]))
			fail("create", Client.Create(bg, obj(m)))
			objs[id] = m
		case gen.Prob(c.T, 4, "del") && !(w.Fixed && kind == "ConfigMap"):
			again := gen.Bool(c.T, "again")
			fail("delete", Client.Delete(bg, obj(old)))
			delete(objs, id)
			if again {
				c.Step("delete and recreate %s %s: %s", kind, id, ref.Canon(m["data"]))
				fail("create", Client.Create(bg, obj(m)))
				objs[id] = m
			} else {
				c.Step("delete %s %s", kind, id)
			}
		case gen.Prob(c.T, 3, "flip"):
			vs := []string{enc(val()), enc(val())}
			n := gen.Int(c.T, 2, 6, "nflip")
			c.Step("%d patches of %s %s with k = %v in turn", n, kind, id, vs)
			for i := 0; i < n; i++ {
				p := M{"data": M{"k": vs[i%2]}}
				fail("patch", Client.Patch(bg, obj(old), client.RawPatch("application/merge-patch+json", []byte(ref.Canon(p)))))
				objs[id] = ref.Patch(ref.CopyMap(old), p).(M)
			}
		default:
			p := M{"data": M{"k": enc(val())}}
			if gen.Prob(c.T, 4, "drop") {
				p["data"].(M)["other"] = nil
			}
			c.Step("patch %s %s with %s", kind, id, ref.Canon(p))
			fail("patch", Client.Patch(bg, obj(old), client.RawPatch("application/merge-patch+json", []byte(ref.Canon(p)))))
			objs[id] = ref.Patch(ref.CopyMap(old), p).(M)
		}
	}
}
