package c27

import (
	"context"
	"encoding/base64"
	"encoding/json"
	"strings"
	"testing"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	appsv1 "k8s.io/api/apps/v1"
	corev1 "k8s.io/api/core/v1"
	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime"
	"k8s.io/apimachinery/pkg/runtime/schema"
	"sigs.k8s.io/controller-runtime/pkg/client"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/controller"
	"github.com/l7mp/dcontroller/pkg/manager"
	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/reconciler"
)

type M = gen.M
type L = gen.L

func meta(o M) M { m, _ := o["metadata"].(M); return m }

// text draws raw secret content.
func text(t gen.T) string {
	return gen.Pick(t, "text", "", "a", "ab", "abc", "secret", "pa ss", "é✓", "\x00\x01\xff", "line\nbreak", "dGVzdA==", "a\"b")
}

// secretValue draws a value of the data map: well-formed base64 (once or twice encoded), nearly
// base64, or something else.
func secretValue(t gen.T) any {
	enc := base64.StdEncoding.EncodeToString([]byte(text(t)))
	switch gen.Int(t, 0, 11, "kind") {
	case 0, 1, 2, 3:
		return enc
	case 10, 11: // binary data
		return base64.StdEncoding.EncodeToString([]byte(gen.Pick(t, "bin", "\xff", "\xff", "\xfe", "\xff\x00\xfe", "\xef\xbf\xbd", "\x30\x82\xff")))
	case 4:
		return base64.StdEncoding.EncodeToString([]byte(enc))
	case 5:
		return gen.Pick(t, "raw", "not base64", "abc", "a", "====", "dGVzdA", "dGVzdA=", "dGVzdA===", "-_-_", "dGVz*A==", "é", "dGVz dA==")
	case 6:
		return base64.URLEncoding.EncodeToString([]byte{0xfb, 0xff, byte(gen.Int(t, 0, 255, "x"))})
	case 7:
		return base64.RawStdEncoding.EncodeToString([]byte(text(t)))
	default:
		return gen.Value(t, 2)
	}
}

// decoded is the reference of the decoding of one value.
func decoded(v any) any {
	s, ok := v.(string)
	if !ok {
		return v
	}
	// valid base64: groups of four symbols of the standard alphabet, padded in the last one
	const abc = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"
	if len(s)%4 != 0 {
		return v
	}
	body := strings.TrimRight(s, "=")
	if len(s)-len(body) > 2 {
		return v
	}
	out, acc, bits := []byte{}, 0, 0
	for _, r := range body {
		i := strings.IndexRune(abc, r)
		if i < 0 {
			return v
		}
		acc, bits = acc<<6|i, bits+6
		if bits >= 8 {
			bits -= 8
			out = append(out, byte(acc>>bits))
			acc &= 1<<bits - 1
		}
	}
	return string(out)
}

func secret(t gen.T) M {
	o := M{"apiVersion": "v1", "kind": "Secret", "metadata": M{"name": gen.Pick(t, "n", "s", "t"), "namespace": "default", "labels": M{"data": "dGVzdA=="}},
		"type": "Opaque"}
	if gen.Prob(t, 13, "data") {
		d := M{}
		for i, n := 0, gen.Int(t, 0, 4, "nkeys"); i < n; i++ {
			d[gen.Pick(t, "k", "user", "password", "tls.crt", "data", "x")] = secretValue(t)
		}
		o["data"] = d
	} else if gen.Bool(t, "odd") {
		o["data"] = gen.Pick[any](t, "odddata", "dGVzdA==", L{"dGVzdA=="}, nil, int64(4))
	}
	if gen.Bool(t, "sd") {
		o["stringData"] = M{"user": "dGVzdA=="}
	}
	if gen.Bool(t, "imm") {
		o["immutable"] = true
	}
	return o
}

func wantSecret(o M) M {
	w := ref.CopyMap(o)
	if d, ok := w["data"].(M); ok {
		for k, v := range d {
			d[k] = decoded(v)
		}
	}
	return w
}

// nonTrivialData: some value is decoded to something else and some is kept.
func nonTrivialData(o M) bool {
	d, _ := o["data"].(M)
	a, b := false, false
	for _, v := range d {
		if ref.JSON(decoded(v)) != ref.JSON(v) {
			a = true
		} else {
			b = true
		}
	}
	return a && (b || len(d) > 1)
}

func TestSecrets(t *testing.T) {
	hx.Check(t, "secrets with data values that are base64, nearly base64, twice encoded or not strings are decoded exactly once where valid, and other kinds are left alone, against a hand-written decoder; non-trivial: at least one value is decoded and there is another one",
		hx.Scale(20000, 600000), func(c *hx.Case) {
			o := secret(c.T)
			other := gen.Prob(c.T, 3, "otherkind")
			if other {
				o["kind"] = gen.Pick(c.T, "kind", "ConfigMap", "SecretStore", "secret", "")
			}
			c.Step("%s", ref.JSON(o))
			c.NonTrivial(!other && nonTrivialData(o))
			want := wantSecret(o)
			if other {
				want = ref.CopyMap(o)
			}
			var got object.Object
			c.NoPanic("DecodeSecretData", func() { got = object.DecodeSecretData(gen.Obj(ref.CopyMap(o))) })
			if ref.JSON(got.Object) != ref.JSON(want) {
				c.Failf("decoded to %s, want %s", ref.JSON(got.Object), ref.JSON(want))
			}
		})
}

func TestSecretsThroughController(t *testing.T) {
	hx.Check(t, "requests for native secrets run through the reconciler of a controller copying them into a view, each request once or more often (retries): the target holds the decoded secret, decoded exactly once, and the object of the request keeps its content; non-trivial as above",
		hx.Scale(1200, 24000), func(c *hx.Case) {
			mgr, err := manager.NewFakeManager(manager.Options{Logger: hx.Log()})
			if err != nil {
				c.Failf("harness: %v", err)
			}
			var conf opv1a1.Controller
			raw := M{"name": "c", "sources": L{M{"apiGroup": "", "kind": "Secret"}},
				"pipeline": L{M{"@project": M{"metadata": "$.metadata", "data": "$.data", "type": "$.type"}}},
				"target":   M{"kind": "T"}}
			if err := json.Unmarshal([]byte(ref.JSON(raw)), &conf); err != nil {
				c.Failf("harness: %v", err)
			}
			// the fake REST mapper knows few types: give the version
			raw["sources"] = L{M{"apiGroup": "", "version": "v1", "kind": "Secret"}}
			if err := json.Unmarshal([]byte(ref.JSON(raw)), &conf); err != nil {
				c.Failf("harness: %v", err)
			}
			ctrl, err := controller.NewDeclarative(mgr, gen.Operator, conf, controller.Options{ErrorChan: make(chan error, 64)})
			if err != nil {
				c.Failf("harness: %v", err)
			}
			rec := controller.NewIncrementalReconciler(mgr, ctrl.(*controller.DeclarativeController))
			o := secret(c.T)
			if _, ok := o["data"].(M); !ok {
				o["data"] = M{"x": "dGVzdA=="}
			}
			typ := object.Added
			for i, n := 0, gen.Int(c.T, 1, 3, "versions"); i < n; i++ {
				c.NonTrivial(nonTrivialData(o))
				want := wantSecret(o)
				req := reconciler.Request{Namespace: "default", Name: meta(o)["name"].(string), EventType: typ,
					GVK: schema.GroupVersionKind{Version: "v1", Kind: "Secret"}, Object: gen.Obj(ref.CopyMap(o))}
				for j, n := 0, gen.Int(c.T, 1, 3, "tries"); j < n; j++ {
					c.Step("%s try %d: %s", typ, j, ref.JSON(o))
					if _, err := rec.Reconcile(context.Background(), req); err != nil {
						c.Failf("reconcile: %v", err)
					}
					if ref.JSON(req.Object.Object) != ref.JSON(o) {
						c.Failf("the object of the request is now %s", ref.JSON(req.Object.Object))
					}
					got := object.NewViewObject(gen.Operator, "T")
					if err := mgr.GetCompositeCache().GetViewCache().Get(context.Background(), client.ObjectKey{Namespace: "default", Name: req.Name}, got); err != nil {
						c.Failf("target: %v", err)
					}
					if ref.JSON(got.Object["data"]) != ref.JSON(want["data"]) || got.Object["type"] != o["type"] {
						c.Failf("target holds data %s, want %s", ref.JSON(got.Object["data"]), ref.JSON(want["data"]))
					}
					if typ == object.Added {
						typ = object.Updated // the pipeline knows the object now
					}
				}
				next := secret(c.T)
				if d, ok := ref.Copy(o["data"]).(M); ok && gen.Bool(c.T, "one") { // a single value changes
					d["x"] = secretValue(c.T)
					if old, _ := o["data"].(M)["x"].(string); len(old) == 4 && strings.HasSuffix(old, "==") {
						d["x"] = gen.Pick(c.T, "byte", "/w==", "/g==", "YQ==")
					}
					next = M{"data": d}
				}
				if d, ok := next["data"].(M); ok {
					o = ref.CopyMap(o)
					o["data"] = d
				}
			}
		})
}

func content(t gen.T) M {
	m := gen.Doc(t, 3)
	delete(m, "metadata")
	delete(m, "name")
	if gen.Bool(t, "meta") {
		md := M{"name": gen.Pick(t, "mn", "other", "x"), "namespace": gen.Pick(t, "mns", "o", "p")}
		if gen.Bool(t, "lab") {
			md["labels"] = M{"a": "1"}
		}
		if gen.Bool(t, "uid") {
			md["uid"] = "123"
		}
		m["metadata"] = md
	}
	if gen.Bool(t, "gvk") {
		m["apiVersion"], m["kind"] = "v1", "Pod"
	}
	return m
}

func TestSetAndGet(t *testing.T) {
	hx.Check(t, "names, namespaces and contents set on view objects in any order and repeatedly are what is read back, with the view's type kept and nothing shared with the caller's content; non-trivial: the content has nested maps or lists and its own metadata",
		hx.Scale(12000, 300000), func(c *hx.Case) {
			op, kind := gen.Pick(c.T, "op", "op", "my-op", "a.b"), gen.Pick(c.T, "kind", "View", "pod", "X1")
			obj := object.NewViewObject(op, kind)
			gvk := schema.GroupVersionKind{Group: op + ".view.dcontroller.io", Version: "v1alpha1", Kind: kind}
			ns, name := "", ""
			var last M
			for i, n := 0, gen.Int(c.T, 1, 4, "ops"); i < n; i++ {
				if gen.Bool(c.T, "setname") {
					ns, name = gen.Pick(c.T, "ns", "", "default", "n"), gen.Pick(c.T, "name", "a", "b.c", "d-e")
					object.SetName(obj, ns, name)
					c.Step("SetName(%q,%q)", ns, name)
				} else {
					last = content(c.T)
					c.Step("SetContent(%s)", ref.JSON(last))
					c.NonTrivial(last["metadata"] != nil && len(last) > 2)
					keep := ref.CopyMap(last)
					object.SetContent(obj, keep)
					if ref.JSON(keep) != ref.JSON(last) {
						c.Failf("SetContent changed its argument to %s", ref.JSON(keep))
					}
					gen.Scribble(keep)
				}
				if obj.GetName() != name || obj.GetNamespace() != ns || obj.GroupVersionKind() != gvk {
					c.Failf("read back %s/%s of %s, want %s/%s of %s", obj.GetNamespace(), obj.GetName(), obj.GroupVersionKind(), ns, name, gvk)
				}
				if object.GetOperator(obj) != op {
					c.Failf("operator %q, want %q", object.GetOperator(obj), op)
				}
				want := M{}
				if last != nil {
					want = ref.CopyMap(last)
				}
				want["apiVersion"], want["kind"] = gvk.Group+"/"+gvk.Version, kind
				md, _ := want["metadata"].(M)
				if md == nil {
					md = M{}
				}
				delete(md, "name")
				delete(md, "namespace")
				if ns != "" {
					md["namespace"] = ns
				}
				if name != "" {
					md["name"] = name
				}
				want["metadata"] = md
				got := ref.CopyMap(obj.UnstructuredContent())
				if _, ok := got["metadata"]; !ok && len(md) == 0 {
					delete(want, "metadata")
				}
				if ref.JSON(got) != ref.JSON(want) {
					c.Failf("content %s, want %s", ref.JSON(got), ref.JSON(want))
				}
			}
		})
}

func randMeta(t gen.T) metav1.ObjectMeta {
	m := metav1.ObjectMeta{Name: gen.Pick(t, "name", "a", "b-c", "d.e"), Namespace: gen.Pick(t, "ns", "", "default", "x")}
	if gen.Bool(t, "lab") {
		m.Labels = map[string]string{"app": gen.Pick(t, "l", "web", "")}
	}
	if gen.Bool(t, "ann") {
		m.Annotations = map[string]string{"note": gen.Str(t)}
	}
	if gen.Bool(t, "uid") {
		m.UID = "u-1"
		m.ResourceVersion = "17"
		m.Generation = 4
	}
	return m
}

func native(t gen.T) client.Object {
	var o client.Object
	m := randMeta(t)
	switch gen.Int(t, 0, 5, "native") {
	case 0:
		p := &corev1.Pod{ObjectMeta: m}
		p.Spec.Containers = []corev1.Container{{Name: gen.Str(t), Image: "nginx", Env: []corev1.EnvVar{{Name: "A", Value: gen.Str(t)}}}}
		p.Status.Phase = corev1.PodPhase(gen.Pick(t, "ph", "Running", "Pending", ""))
		p.Status.PodIP = gen.Pick(t, "ip", "", "1.2.3.4")
		o = p
	case 1:
		s := &corev1.Service{ObjectMeta: m}
		for i, n := 0, gen.Int(t, 0, 3, "ports"); i < n; i++ {
			s.Spec.Ports = append(s.Spec.Ports, corev1.ServicePort{Name: gen.Str(t), Port: int32(gen.Int(t, 1, 65535, "port")), Protocol: "TCP"})
		}
		o = s
	case 2:
		o = &corev1.ConfigMap{ObjectMeta: m, Data: map[string]string{"k": gen.Str(t), "l": gen.Str(t)}}
	case 3:
		o = &corev1.Secret{ObjectMeta: m, Data: map[string][]byte{"k": []byte(text(t)), "l": []byte(text(t))}}
	case 4:
		n := int32(gen.Int(t, 0, 9, "replicas"))
		d := &appsv1.Deployment{ObjectMeta: m}
		d.Spec.Replicas = &n
		d.Spec.Selector = &metav1.LabelSelector{MatchLabels: map[string]string{"app": "x"}}
		o = d
	default:
		u := &unstructured.Unstructured{Object: content(t)}
		u.SetName(m.Name)
		u.SetNamespace(m.Namespace)
		u.SetLabels(m.Labels)
		o = u
	}
	return o
}

func TestConversion(t *testing.T) {
	hx.Check(t, "random pods, services, config maps, secrets, deployments and unstructured objects converted to view objects keep name, namespace, labels, annotations and content (compared with their JSON form) and take the view's type, without touching or sharing the original; non-trivial: typed object with labels or annotations, or unstructured one with nested content",
		hx.Scale(8000, 200000), func(c *hx.Case) {
			o := native(c.T)
			orig, err := runtime.DefaultUnstructuredConverter.ToUnstructured(o)
			if err != nil {
				c.Failf("harness: %v", err)
			}
			b, _ := json.Marshal(o)
			if _, isU := o.(*unstructured.Unstructured); isU {
				b = []byte(ref.JSON(orig))
			}
			before := string(b)
			c.Step("%T %s", o, before)
			c.NonTrivial(len(o.GetLabels())+len(o.GetAnnotations()) > 0)
			conv, err := object.ConvertRuntimeObjectToClientObject(o)
			if err != nil || conv.GetName() != o.GetName() || conv.GetNamespace() != o.GetNamespace() {
				c.Failf("conversion to a client object: %v", err)
			}
			v, err := object.NewViewObjectFromNativeObject("op", "V", o)
			if err != nil {
				c.Failf("conversion failed: %v", err)
			}
			if v.GetName() != o.GetName() || v.GetNamespace() != o.GetNamespace() {
				c.Failf("converted object is %s/%s", v.GetNamespace(), v.GetName())
			}
			var want M
			if _, isU := o.(*unstructured.Unstructured); isU {
				want = ref.CopyMap(orig)
			} else if err := json.Unmarshal(b, &want); err != nil {
				c.Failf("harness: %v", err)
			}
			want["apiVersion"], want["kind"] = "op.view.dcontroller.io/v1alpha1", "V"
			if ref.JSON(norm(v.Object)) != ref.JSON(norm(want)) {
				c.Failf("converted to %s, want %s", ref.JSON(v.Object), ref.JSON(want))
			}
			gen.Scribble(v.Object)
			a, _ := json.Marshal(o)
			if x, isU := o.(*unstructured.Unstructured); isU {
				a = []byte(ref.JSON(x.Object))
			}
			if string(a) != before {
				c.Failf("changing the view object changed the original to %s", a)
			}
		})
}

// norm makes numbers comparable.
func norm(v any) any {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	var x any
	if err := json.Unmarshal(b, &x); err != nil {
		panic(err)
	}
	return x
}

// tweak changes one place of a value; ok tells whether it did.
func tweak(t gen.T, v any) (any, bool) {
	switch x := v.(type) {
	case M:
		if len(x) == 0 || gen.Prob(t, 3, "here") {
			x["new"] = gen.Pick[any](t, "nv", nil, "", int64(0), M{}, L{})
			return x, true
		}
		ks := []string{}
		for k := range x {
			ks = append(ks, k)
		}
		k := ks[0]
		for _, y := range ks {
			if y < k {
				k = y
			}
		}
		if gen.Prob(t, 4, "rm") {
			delete(x, k)
			return x, true
		}
		n, ok := tweak(t, x[k])
		x[k] = n
		return x, ok
	case L:
		if len(x) == 0 || gen.Prob(t, 3, "here") {
			return append(x, gen.Pick[any](t, "nv", nil, "", M{})), true
		}
		if gen.Prob(t, 4, "rm") {
			return x[:len(x)-1], true
		}
		i := gen.Int(t, 0, len(x)-1, "i")
		n, ok := tweak(t, x[i])
		x[i] = n
		return x, ok
	case string:
		return x + "~", true
	case int64:
		return x + 1, true
	case float64:
		return x + 1, true
	case bool:
		return !x, true
	}
	return "was null", true
}

func TestCopyAndEquality(t *testing.T) {
	hx.Check(t, "random objects: a deep copy is equal and independent in both directions (also through DeepCopyInto and DeepCopyAny), an object changed in one place, however deep, is not equal, and equality is symmetric; non-trivial: nesting of at least two levels",
		hx.Scale(20000, 500000), func(c *hx.Case) {
			m := gen.Doc(c.T, 3)
			m["apiVersion"], m["kind"] = "v1", "K"
			m["metadata"] = M{"name": "n", "labels": M{"a": "b"}}
			if gen.Bool(c.T, "more") {
				m["spec"] = gen.Value(c.T, 4)
			}
			c.Step("%s", ref.JSON(m))
			deep := false
			for k, v := range m {
				switch x := v.(type) {
				case M:
					deep = deep || k != "metadata" && len(x) > 0
				case L:
					deep = deep || len(x) > 0
				}
			}
			c.NonTrivial(deep)
			a := gen.Obj(ref.CopyMap(m))
			var b object.Object
			if gen.Bool(c.T, "into") {
				b = object.New()
				if gen.Bool(c.T, "full") {
					b.Object = M{"old": "content", "kind": "Other", "apiVersion": "v2"}
				}
				object.DeepCopyInto(a, b)
			} else {
				b = object.DeepCopy(a)
			}
			if ref.JSON(b.Object) != ref.JSON(m) || !object.DeepEqual(a, b) || !object.DeepEqual(b, a) {
				c.Failf("copy %s of %s; equal %v %v", ref.JSON(b.Object), ref.JSON(a.Object), object.DeepEqual(a, b), object.DeepEqual(b, a))
			}
			if x := object.DeepCopyAny(any(a.Object)); ref.JSON(x) != ref.JSON(m) {
				c.Failf("DeepCopyAny gives %s", ref.JSON(x))
			} else {
				gen.Scribble(x)
			}
			if ref.JSON(a.Object) != ref.JSON(m) {
				c.Failf("changing a DeepCopyAny copy changed the original to %s", ref.JSON(a.Object))
			}
			// a change in one place
			y, _ := tweak(c.T, ref.CopyMap(m))
			d := gen.Obj(y.(M))
			if ref.JSON(d.Object) != ref.JSON(m) && (object.DeepEqual(a, d) || object.DeepEqual(d, a)) {
				c.Failf("objects %s and %s are said to be equal", ref.JSON(a.Object), ref.JSON(d.Object))
			}
			gen.Scribble(b.Object)
			if ref.JSON(a.Object) != ref.JSON(m) {
				c.Failf("changing the copy changed the original to %s", ref.JSON(a.Object))
			}
			e := object.DeepCopy(a)
			gen.Scribble(a.Object)
			if ref.JSON(e.Object) != ref.JSON(m) {
				c.Failf("changing the original changed the copy to %s", ref.JSON(e.Object))
			}
		})
}
