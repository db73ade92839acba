package c24

import (
	"bytes"
	"context"
	"crypto/rsa"
	"crypto/tls"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/url"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"
	"dcverif/rst"

	"github.com/golang-jwt/jwt/v5"
	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
	"k8s.io/apimachinery/pkg/runtime/schema"

	"github.com/l7mp/dcontroller/pkg/apiserver"
	"github.com/l7mp/dcontroller/pkg/auth"
	"github.com/l7mp/dcontroller/pkg/object"
)

type M = gen.M
type L = gen.L
type GVK = schema.GroupVersionKind

var ctx = context.Background()

// ---- the reference for verdicts ----

// glob is the reference for patterns with at most one star.
func glob(p, v string) bool {
	pre, suf, ok := strings.Cut(p, "*")
	if !ok {
		return p == v
	}
	return len(v) >= len(pre)+len(suf) && v[:len(pre)] == pre && v[len(v)-len(suf):] == suf
}

func anyMatch(ps []string, v string) bool {
	for _, p := range ps {
		if glob(p, v) {
			return true
		}
	}
	return false
}

var collection = map[string]bool{"list": true, "watch": true, "create": true, "deletecollection": true}

// Ask is what a request asks for.
type Ask struct {
	Verb, Group, Resource, Name, NS string
}

// Grants are what a token carries.
type Grants struct {
	NS    []string
	Rules []rbacv1.PolicyRule
}

func (g Grants) String() string {
	b := &strings.Builder{}
	fmt.Fprintf(b, "namespaces %q", g.NS)
	for _, r := range g.Rules {
		fmt.Fprintf(b, " rule{%q %q %q %q}", r.Verbs, r.APIGroups, r.Resources, r.ResourceNames)
	}
	return b.String()
}

func (g Grants) allows(q Ask) bool {
	ns := len(g.NS) == 0
	for _, n := range g.NS {
		ns = ns || n == "*" || (q.NS != "" && n == q.NS)
	}
	rule := len(g.Rules) == 0
	for _, r := range g.Rules {
		rule = rule || anyMatch(r.Verbs, q.Verb) && anyMatch(r.APIGroups, q.Group) && anyMatch(r.Resources, q.Resource) &&
			(collection[q.Verb] || q.Name == "" || len(r.ResourceNames) == 0 || anyMatch(r.ResourceNames, q.Name))
	}
	return ns && rule
}

// ---- generators ----

var (
	verbs = []string{"get", "list", "watch", "create", "update", "patch", "delete", "deletecollection"}
	nss   = []string{"ns1", "ns2", "ns"}
	names = []string{"a", "ab", "b"}
	kinds = []string{"Foo", "FooBar"}
)

// pattern draws a pattern for a value: exact, star, prefix, suffix or middle wildcard.
func pattern(t gen.T, vs []string) string {
	v := gen.Pick(t, "value", vs...)
	switch gen.Int(t, 0, 10, "pattern") {
	case 0, 1:
		return "*"
	case 2:
		return v[:gen.Int(t, 0, len(v), "cut")] + "*"
	case 3:
		return "*" + v[gen.Int(t, 0, len(v), "cut"):]
	case 4:
		return gen.Pick(t, "odd", "", "nothing", strings.ToUpper(v), v+"x", "x"+v)
	}
	return v
}

func patterns(t gen.T, v string, vs []string) []string {
	l := []string{}
	if gen.Prob(t, 11, "near") {
		vs = []string{v, v, v, vs[0]}
	}
	for i, n := 0, gen.Int(t, 1, 2, "n"); i < n; i++ {
		l = append(l, pattern(t, vs))
	}
	return l
}

func grants(t gen.T, qs []Ask, groups []string) Grants {
	g := Grants{}
	for i, n := 0, gen.Int(t, 0, 2, "namespaces"); i < n; i++ {
		q := qs[gen.Int(t, 0, len(qs)-1, "near")]
		switch gen.Int(t, 0, 6, "namespace") {
		case 0:
			g.NS = append(g.NS, "*")
		case 1, 2, 3:
			g.NS = append(g.NS, q.NS)
		case 4:
			g.NS = append(g.NS, gen.Pick(t, "ns", "ns*", "*1", "NS1", "ns1 ", "", "ns1,ns2"))
		default:
			g.NS = append(g.NS, gen.Pick(t, "ns", nss...))
		}
	}
	for i, n := 0, gen.Int(t, 0, 3, "rules"); i < n; i++ {
		q := qs[gen.Int(t, 0, len(qs)-1, "near")]
		r := rbacv1.PolicyRule{Verbs: patterns(t, q.Verb, verbs), APIGroups: patterns(t, q.Group, groups), Resources: patterns(t, q.Resource, []string{"foo", "foobar"})}
		if gen.Prob(t, 5, "names") {
			r.ResourceNames = patterns(t, q.Name, names)
		}
		g.Rules = append(g.Rules, r)
	}
	return g
}

// ---- tokens ----

type keys struct {
	priv, foreign *rsa.PrivateKey
	pub, key      []byte
}

// place is where the requests go.
type place struct {
	keys
	http, https   string // base URLs, http may be missing
	plain, secure *http.Client
	list          func(g GVK) ([]M, error) // lists the store
	put           func(m M) error          // stores an object
}

var (
	once sync.Once
	tg   *place
	srv  *rst.Server
	err0 error
)

func setup() error {
	once.Do(func() { err0 = start() })
	return err0
}

func start() error {
	k := keys{}
	mk := func() *rsa.PrivateKey {
		cert, key, err := auth.GenerateSelfSignedCert("localhost")
		if err != nil {
			err0 = err
			return nil
		}
		p, err := auth.ParsePrivateKey(key)
		if err != nil {
			err0 = err
		}
		k.pub, k.key = cert, key
		return p
	}
	k.foreign = mk()
	k.priv = mk()
	if err0 != nil {
		return err0
	}
	// read when the server is made
	dir, err := os.MkdirTemp("", "c24")
	if err != nil {
		return err
	}
	defer os.RemoveAll(dir)
	cf, kf := filepath.Join(dir, "tls.crt"), filepath.Join(dir, "tls.key")
	for f, b := range map[string][]byte{cf: k.pub, kf: k.key} {
		if err := os.WriteFile(f, b, 0o600); err != nil {
			return err
		}
	}
	srv, err = rst.New(func(cfg *apiserver.Config) {
		cfg.CertFile, cfg.KeyFile = cf, kf
		cfg.Authenticator = auth.NewJWTAuthenticator(&k.priv.PublicKey)
		cfg.Authorizer = auth.NewCompositeAuthorizer()
	})
	if err != nil {
		return err
	}
	if err := srv.Start(); err != nil {
		return err
	}
	own = &place{keys: k, http: srv.Base, https: "https://" + srv.S.GetServerAddress(), plain: srv.HTTP,
		secure: &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{InsecureSkipVerify: true}, MaxIdleConnsPerHost: 16}},
		list: func(g GVK) ([]M, error) {
			l := &unstructured.UnstructuredList{}
			l.SetGroupVersionKind(GVK{Group: g.Group, Version: g.Version, Kind: g.Kind + "List"})
			err := srv.API.Client.List(ctx, l)
			r := []M{}
			for _, o := range l.Items {
				r = append(r, o.Object)
			}
			return r, err
		},
		put: func(m M) error {
			u := object.New()
			u.SetUnstructuredContent(ref.CopyMap(m))
			return srv.API.Client.Create(ctx, u)
		}}
	return nil
}

var own *place

func claims(g Grants, from, to time.Duration) auth.Claims {
	now := time.Now()
	return auth.Claims{Username: "u", Namespaces: g.NS, Rules: g.Rules, RegisteredClaims: jwt.RegisteredClaims{
		Issuer: "dcontroller", Subject: "u", IssuedAt: jwt.NewNumericDate(now.Add(from)), NotBefore: jwt.NewNumericDate(now.Add(from)), ExpiresAt: jwt.NewNumericDate(now.Add(to))}}
}

// header draws an Authorization header, valid tells what it should be.
func header(c *hx.Case, g Grants) (h string, valid bool, what string) {
	full := Grants{}
	sign := func(m jwt.SigningMethod, key any, cl auth.Claims) string {
		s, err := jwt.NewWithClaims(m, cl).SignedString(key)
		if err != nil {
			c.Failf("sign: %v", err)
		}
		return s
	}
	issue := func() string {
		s, err := auth.NewTokenGenerator(tg.priv).GenerateToken("u", g.NS, g.Rules, time.Hour)
		if err != nil {
			c.Failf("issue: %v", err)
		}
		return s
	}
	switch gen.Int(c.T, 0, 27, "token") {
	case 1:
		return "", false, "no token"
	case 2:
		return "Bearer " + sign(jwt.SigningMethodRS256, tg.priv, claims(full, -time.Hour, -2*time.Second)), false, "expired token"
	case 3:
		return "Bearer " + sign(jwt.SigningMethodRS256, tg.priv, claims(full, time.Hour, 2*time.Hour)), false, "token that is not valid yet"
	case 4:
		return "Bearer " + sign(jwt.SigningMethodRS256, tg.foreign, claims(full, 0, time.Hour)), false, "foreign token"
	case 5:
		return "Bearer " + sign(jwt.SigningMethodNone, jwt.UnsafeAllowNoneSignatureType, claims(full, 0, time.Hour)), false, "unsigned token"
	case 6:
		return "Bearer " + sign(jwt.SigningMethodHS256, tg.pub, claims(full, 0, time.Hour)), false, "token signed with the public key"
	case 7:
		// the signature of a weak token with the claims of a strong one
		a, b := strings.Split(issue(), "."), strings.Split(sign(jwt.SigningMethodRS256, tg.foreign, claims(full, 0, time.Hour)), ".")
		if a[1] == b[1] {
			return "", false, "no token"
		}
		return "Bearer " + a[0] + "." + b[1] + "." + a[2], false, "token with other claims"
	case 8:
		return gen.Pick(c.T, "header", "Bearer", "Bearer ", "Basic dTpw", "Bearer x", "Bearer ..", "Bearer a.b.c", "Bearer null", "Token "+issue(), issue()), false, "no proper header"
	case 9:
		return "Bearer " + strings.Join(strings.Split(issue(), ".")[:2], ".") + ".", false, "token without its signature"
	}
	if gen.Bool(c.T, "self-made") {
		return "Bearer " + sign(jwt.SigningMethodRS256, tg.priv, claims(g, -time.Minute, time.Hour)), true, "valid token"
	}
	return "Bearer " + issue(), true, "valid token"
}

// ---- requests ----

type call struct {
	method, path, typ string
	query             url.Values
	body              any
	ask               Ask
	resource          bool // the request is for a resource
	kind              string
	gvk               GVK
	also              *Ask // must be allowed, too
	reaches           bool // the resource is served
}

func (q call) String() string {
	p := q.path
	if len(q.query) > 0 {
		p += "?" + q.query.Encode()
	}
	b := ""
	if q.body != nil {
		b = " " + ref.JSON(q.body.(M))
	}
	return q.method + " " + p + b
}

type world struct {
	c      *hx.Case
	groups []string
	gvks   []GVK
	objs   map[GVK]map[string]M // "ns/name" -> object
	n      int
}

func (w *world) object(g GVK, ns, name string) M {
	w.n++
	return M{"apiVersion": g.GroupVersion().String(), "kind": g.Kind, "metadata": M{"name": name, "namespace": ns}, "spec": M{"n": int64(w.n)}}
}

var decoys = []http.Header{
	{}, {}, {}, {"Impersonate-User": {"admin"}, "Impersonate-Group": {"system:masters"}},
	{"X-Remote-User": {"admin"}, "X-Remote-Group": {"system:masters"}}, {"Cookie": {"token=x"}}, {"X-Forwarded-For": {"127.0.0.1"}}, {"Content-Type": {"application/json"}, "Upgrade": {"websocket"}},
}

func send(q call, auth string, overTLS bool, extra http.Header) (int, M, error) {
	base, cl := tg.http, tg.plain
	if overTLS || base == "" {
		base, cl = tg.https, tg.secure
	}
	u := base + q.path
	if len(q.query) > 0 {
		u += "?" + q.query.Encode()
	}
	var body io.Reader
	if q.body != nil {
		b, _ := json.Marshal(q.body)
		body = bytes.NewReader(b)
	}
	cx, cancel := context.WithTimeout(ctx, 60*time.Second)
	defer cancel()
	r, err := http.NewRequestWithContext(cx, q.method, u, body)
	if err != nil {
		return 0, nil, err
	}
	for k, v := range extra {
		if k != "Upgrade" {
			r.Header[k] = v
		}
	}
	r.Header.Set("Accept", "application/json")
	if q.body != nil {
		r.Header.Set("Content-Type", "application/json")
		if q.typ != "" {
			r.Header.Set("Content-Type", q.typ)
		}
	}
	if auth != "" {
		r.Header.Set("Authorization", auth)
	}
	resp, err := cl.Do(r)
	if err != nil {
		return 0, nil, err
	}
	defer resp.Body.Close()
	if (q.kind == "watch" || q.kind == "old watch") && resp.StatusCode == 200 {
		return 200, nil, nil
	}
	b, err := io.ReadAll(resp.Body)
	if err != nil {
		return 0, nil, err
	}
	m, _ := rst.Decode(b)
	return resp.StatusCode, m, nil
}

// draw draws a request.
func (w *world) draw() call {
	t := w.c.T
	g := w.gvks[gen.Int(t, 0, len(w.gvks)-1, "view")]
	ns, name := gen.Pick(t, "ns", nss...), gen.Pick(t, "name", names...)
	// mostly for existing objects
	if l := sorted(w.objs[g]); len(l) > 0 && gen.Prob(t, 9, "existing") {
		ns, name, _ = strings.Cut(gen.Pick(t, "object", l...), "/")
	}
	res := strings.ToLower(g.Kind)
	all := gen.Prob(t, 5, "all namespaces")
	cns := ns
	if all {
		cns = ""
	}
	q := call{resource: true, gvk: g, reaches: true}
	a := Ask{Group: g.Group, Resource: res, NS: ns, Name: name}
	item, coll := rst.Path(g, ns, name), rst.Path(g, cns)
	switch gen.Int(t, 0, 18, "request") {
	case 0, 1:
		q.kind, q.method, q.path, a.Verb = "get", "GET", item, "get"
	case 2, 3:
		q.kind, q.method, q.path, a.Verb, a.NS, a.Name = "list", "GET", coll, "list", cns, ""
		if gen.Prob(t, 4, "watch flag") {
			q.query = url.Values{"watch": {gen.Pick(t, "watch", "0", "false", "False")}}
		}
		if gen.Prob(t, 4, "field selector") {
			a.Name = name
			if q.query == nil {
				q.query = url.Values{}
			}
			q.query.Set("fieldSelector", "metadata.name="+name)
			q.kind = "list-named"
		}
	case 4:
		q.kind, q.method, q.path, a.Verb, a.NS, a.Name = "watch", "GET", coll, "watch", cns, ""
		q.query = url.Values{"watch": {gen.Pick(t, "watch", "true", "1", "True", "yes")}}
	case 5, 6:
		q.kind, q.method, q.path, a.Verb, a.Name = "create", "POST", rst.Path(g, ns), "create", ""
		q.body = w.object(g, ns, name)
	case 7:
		// an object for another namespace than that of the path
		other := gen.Pick(t, "other", nss...)
		if other == ns {
			other += "x"
		}
		q.kind, q.method, q.path, a.Verb, a.Name = "smuggle", "POST", rst.Path(g, ns), "create", ""
		q.body = w.object(g, other, name)
		if gen.Bool(t, "update") {
			q.method, q.path, a.Verb, a.Name = "PUT", item, "update", name
		} else if gen.Bool(t, "apply") {
			q.method, q.path, a.Verb, a.Name, q.typ = "PATCH", item, "patch", name, "application/apply-patch+yaml"
			q.query = url.Values{"fieldManager": {"m"}, "force": {"true"}}
		}
	case 8, 9:
		q.kind, q.method, q.path, a.Verb = "update", "PUT", item, "update"
		q.body = w.object(g, ns, name)
	case 10:
		w.n++
		q.kind, q.method, q.path, a.Verb, q.typ = "patch", "PATCH", item, "patch", "application/merge-patch+json"
		q.body = M{"spec": M{"n": int64(w.n)}}
	case 11:
		q.kind, q.method, q.path, a.Verb, q.typ = "apply", "PATCH", item, "patch", "application/apply-patch+yaml"
		w.n++
		q.query = url.Values{"fieldManager": {fmt.Sprintf("m%d", w.n)}, "force": {"true"}}
		q.body = w.object(g, ns, name)
		if w.objs[g][ns+"/"+name] == nil {
			q.also = &Ask{Verb: "create", Group: g.Group, Resource: res, Name: name, NS: ns}
		}
	case 12, 13:
		q.kind, q.method, q.path, a.Verb = "delete", "DELETE", item, "delete"
	case 14:
		q.kind, q.method, q.path, a.Verb, a.NS, a.Name = "delete all", "DELETE", coll, "deletecollection", cns, ""
	case 15:
		// what is not served
		q.reaches, q.kind, q.method, a.Verb = false, "not served", "GET", "get"
		switch gen.Int(t, 0, 5, "path") {
		case 0:
			a.Resource, q.path = "nosuch", "/apis/"+g.Group+"/v1alpha1/namespaces/"+ns+"/nosuch/"+name
		case 1:
			a.Group, a.Resource, q.path = "", "pods", "/api/v1/namespaces/"+ns+"/pods/"+name
		case 2:
			a.Group, a.Resource, q.path = "apps", "deployments", "/apis/apps/v1/namespaces/"+ns+"/deployments/"+name
		case 3:
			// an object without a namespace
			a.NS, q.path = "", rst.Path(g, "", name)
		case 4:
			a.NS, q.path, q.method, a.Verb = "", rst.Path(g, "", name), "DELETE", "delete"
		case 5:
			q.path = "/apis/" + g.Group + "/v1/namespaces/" + ns + "/" + res + "/" + name
		}
	case 16:
		q.reaches, q.resource, q.kind, q.method = false, false, "discovery", "GET"
		q.path = gen.Pick(t, "path", "/apis", "/apis/"+g.Group, "/apis/"+g.Group+"/v1alpha1", "/version", "/openapi/v2", "/healthz", "/")
	case 18:
		// without a namespace in the path
		q.kind, q.method, q.path, a.Verb, a.Name, a.NS = "create anywhere", "POST", rst.Path(g, ""), "create", "", ""
		q.body = w.object(g, ns, name)
	case 17:
		// the old form of watches
		q.reaches, q.kind, q.method, a.Verb, a.NS, a.Name = false, "old watch", "GET", "watch", cns, ""
		q.path = strings.Replace(coll, "/v1alpha1/", "/v1alpha1/watch/", 1)
	}
	// letters of the path may be encoded
	if q.resource && gen.Prob(t, 2, "encode") {
		for _, s := range []string{"/ns1", "/ns2", "/foo"} {
			q.path = strings.Replace(q.path, s, fmt.Sprintf("/%%%02X%s", s[1], s[2:]), 1)
		}
		w.c.Class("encoded path")
	}
	q.ask = a
	return q
}

func sorted(m map[string]M) []string {
	r := []string{}
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

func spec(m M) any {
	s, _ := m["spec"].(M)
	return s["n"]
}

func id(m M) string {
	md, _ := m["metadata"].(M)
	return fmt.Sprint(md["namespace"], "/", md["name"])
}

// store reads the objects from the store.
func (w *world) store(g GVK) string {
	l, err := tg.list(g)
	if err != nil {
		w.c.Failf("list of the store: %v", err)
	}
	r := []string{}
	for _, o := range l {
		r = append(r, fmt.Sprintf("%s=%v", id(o), spec(o)))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func (w *world) want(g GVK) string {
	r := []string{}
	for k, o := range w.objs[g] {
		r = append(r, fmt.Sprintf("%s=%v", k, spec(o)))
	}
	sort.Strings(r)
	return strings.Join(r, " ")
}

func (w *world) verify() {
	for _, g := range w.gvks {
		if a, b := w.store(g), w.want(g); a != b {
			w.c.Failf("the store has %s: %s, want: %s", g, a, b)
		}
	}
}

// effect is the effect of a permitted request: the expected code (0: any other than 401, 403 and 2xx).
func (w *world) effect(q call, r M) (code int, bad string) {
	o := w.objs[q.gvk]
	k := q.ask.NS + "/" + q.ask.Name
	items := func(f func(k string) bool) string {
		want := []string{}
		for x, v := range o {
			if f(x) {
				want = append(want, fmt.Sprintf("%s=%v", x, spec(v)))
			}
		}
		have := []string{}
		l, _ := r["items"].(L)
		for _, x := range l {
			m, _ := x.(M)
			have = append(have, fmt.Sprintf("%s=%v", id(m), spec(m)))
		}
		sort.Strings(want)
		sort.Strings(have)
		if fmt.Sprint(want) != fmt.Sprint(have) {
			return fmt.Sprintf("the list is %v, want %v", have, want)
		}
		return ""
	}
	in := func(x string) bool { return q.ask.NS == "" || strings.HasPrefix(x, q.ask.NS+"/") }
	body, _ := q.body.(M)
	switch q.kind {
	case "get":
		if o[k] == nil {
			return 404, ""
		}
		if fmt.Sprint(spec(r)) != fmt.Sprint(spec(o[k])) {
			bad = fmt.Sprintf("the object is %v, want %v", r, o[k])
		}
		return 200, bad
	case "list":
		return 200, items(in)
	case "list-named":
		return 200, items(func(x string) bool { return in(x) && strings.HasSuffix(x, "/"+q.ask.Name) })
	case "watch":
		return 200, ""
	case "create":
		o[id(body)] = body
		return 201, ""
	case "update":
		if o[k] == nil {
			return 404, ""
		}
		o[k] = body
		return 200, ""
	case "patch":
		if o[k] == nil {
			return 404, ""
		}
		o[k] = body
		return 200, ""
	case "apply":
		code = 200
		if o[k] == nil {
			code = 201
		}
		o[k] = body
		return code, ""
	case "delete":
		if o[k] == nil {
			return 404, ""
		}
		delete(o, k)
		return 200, ""
	case "delete all":
		for x := range o {
			if in(x) {
				delete(o, x)
			}
		}
		return 200, ""
	}
	return 0, ""
}

func TestRequests(t *testing.T) {
	hx.Check(t, "6 to 20 requests (reads, lists by selectors, watches, creates, updates, patches, server-side applies, deletions, of objects and collections, in one or all namespaces, for other namespaces than the path's, for types that are not served, old forms of watches, encoded paths, discovery) over HTTP and TLS with valid tokens of grants near and far from the requests and with missing, expired, not yet valid, foreign, unsigned, altered and malformed tokens, some with impersonation headers; the answer is unauthorized, forbidden or that of a served request as the reference says and the store equals a model in which only the permitted requests have an effect; non-trivial: requests were refused as unauthorized, as forbidden, and served",
		hx.Scale(2500, 60000), func(c *hx.Case) {
			if err := setup(); err != nil {
				c.Failf("no server: %v", err)
			}
			tg = own
			op := rst.Operator()
			w := &world{c: c, objs: map[GVK]map[string]M{}}
			for _, o := range []string{op, "x" + op} {
				for _, k := range kinds {
					g := rst.Kind(o, k)
					w.gvks = append(w.gvks, g)
					w.objs[g] = map[string]M{}
				}
				w.groups = append(w.groups, w.gvks[len(w.gvks)-1].Group)
			}
			if err := srv.S.RegisterGVKs(w.gvks); err != nil {
				c.Failf("registration: %v", err)
			}
			defer srv.S.UnregisterGVKs(w.gvks)
			w.run()
		})
}

// run makes requests.
func (w *world) run() {
	c := w.c
	for i, n := 0, gen.Int(c.T, 2, 8, "objects"); i < n; i++ {
		g := w.gvks[gen.Int(c.T, 0, len(w.gvks)-1, "view")]
		m := w.object(g, gen.Pick(c.T, "ns", nss...), gen.Pick(c.T, "name", names...))
		if w.objs[g][id(m)] != nil {
			continue
		}
		w.objs[g][id(m)] = m
		if err := tg.put(m); err != nil {
			c.Failf("create: %v", err)
		}
		c.Step("%s has %s", g, id(m))
	}
	seen := map[string]bool{}
	var g Grants
	for i, n := 0, gen.Int(c.T, 6, 20, "requests"); i < n; i++ {
		q := w.draw()
		if i == 0 || gen.Prob(c.T, 9, "new grants") {
			qs := []Ask{q.ask}
			if q.also != nil {
				qs = append(qs, *q.also)
			}
			g = grants(c.T, qs, w.groups)
			c.Step("grants: %s", g)
		}
		h, valid, what := header(c, g)
		overTLS := gen.Prob(c.T, 3, "TLS")
		extra := decoys[gen.Int(c.T, 0, len(decoys)-1, "headers")]
		allowed := valid && (!q.resource || g.allows(q.ask))
		if allowed && q.kind == "create anywhere" {
			continue
		}
		code, r, err := send(q, h, overTLS, extra)
		c.Step("%s with a %s (TLS: %v, %v): %d", q, what, overTLS, extra, code)
		if err != nil {
			c.Failf("%v", err)
		}
		c.Class(q.kind)
		switch {
		case !valid:
			seen["unauthorized"] = true
			if code != 401 {
				c.Failf("%s: %d, want 401", what, code)
			}
		case !allowed:
			seen["forbidden"] = true
			c.Class("forbidden: " + q.kind)
			if code != 403 {
				c.Failf("%d %v, want 403", code, r)
			}
		case q.also != nil && !g.allows(*q.also):
			c.Class("apply without the permission to create")
			if code != 403 {
				c.Failf("%d %v, want 403", code, r)
			}
		case !q.resource:
			if code != 200 {
				// some paths exist for the API server only
				if code == 401 || code == 403 || strings.HasPrefix(q.path, "/apis") {
					c.Failf("%d, want 200", code)
				}
			}
		case !q.reaches:
			if code == 401 || code == 403 || code < 300 && q.kind != "old watch" {
				c.Failf("%d %v, want another refusal", code, r)
			}
		case q.kind == "smuggle":
			if code < 400 || code > 499 {
				c.Failf("%d %v, want a refusal", code, r)
			}
		default:
			seen["served"] = true
			want, bad := w.effect(q, r)
			if code != want {
				c.Failf("%d %v, want %d", code, r, want)
			}
			if bad != "" {
				c.Failf("%s", bad)
			}
		}
		if code == 401 || code == 403 {
			if r != nil && (r["kind"] != "Status" || r["items"] != nil || r["spec"] != nil) {
				c.Failf("a refusal with content: %v", r)
			}
		}
		w.verify()
	}
	c.NonTrivial(len(seen) == 3)
}
