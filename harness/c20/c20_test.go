package c20

import (
	"context"
	"encoding/json"
	"fmt"
	"net/http"
	"strings"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"

	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apiserver/pkg/authentication/user"
	"k8s.io/apiserver/pkg/authorization/authorizer"

	"github.com/l7mp/dcontroller/pkg/auth"
)

// glob is the reference for patterns with at most one star.
func glob(p, v string) bool {
	pre, suf, ok := strings.Cut(p, "*")
	if !ok {
		return p == v
	}
	return len(v) >= len(pre)+len(suf) && v[:len(pre)] == pre && v[len(v)-len(suf):] == suf
}

func anyMatch(ps []string, v string) bool {
	for _, p := range ps {
		if glob(p, v) || p == v {
			return true
		}
	}
	return false
}

var collection = map[string]bool{"list": true, "watch": true, "create": true, "deletecollection": true}

// Req is a request.
type Req struct {
	Verb, Group, Resource, Name, NS string
}

// Grants are what a token carries.
type Grants struct {
	NS    []string
	Rules []rbacv1.PolicyRule
}

func (g Grants) String() string {
	b := &strings.Builder{}
	fmt.Fprintf(b, "namespaces %q", g.NS)
	for _, r := range g.Rules {
		fmt.Fprintf(b, " rule{%q %q %q %q}", r.Verbs, r.APIGroups, r.Resources, r.ResourceNames)
	}
	return b.String()
}

func ruleAllows(r rbacv1.PolicyRule, q Req) bool {
	if !anyMatch(r.Verbs, q.Verb) || !anyMatch(r.APIGroups, q.Group) || !anyMatch(r.Resources, q.Resource) {
		return false
	}
	return collection[q.Verb] || q.Name == "" || len(r.ResourceNames) == 0 || anyMatch(r.ResourceNames, q.Name)
}

// allowed is the reference.
func allowed(g Grants, q Req) bool {
	ns := len(g.NS) == 0
	for _, n := range g.NS {
		ns = ns || n == "*" || (q.NS != "" && n == q.NS)
	}
	rule := len(g.Rules) == 0
	for _, r := range g.Rules {
		rule = rule || ruleAllows(r, q)
	}
	return ns && rule
}

func userOf(g Grants) user.Info {
	u := &user.DefaultInfo{Name: "u", Extra: map[string][]string{}}
	if len(g.NS) > 0 {
		u.Extra["namespaces"] = g.NS
	}
	if len(g.Rules) > 0 {
		b, err := json.Marshal(g.Rules)
		if err != nil {
			panic(err)
		}
		u.Extra["rules"] = []string{string(b)}
	}
	return u
}

func ask(c *hx.Case, u user.Info, q Req) bool {
	attr := authorizer.AttributesRecord{User: u, Verb: q.Verb, APIGroup: q.Group, APIVersion: "v1alpha1", Resource: q.Resource, Name: q.Name, Namespace: q.NS, ResourceRequest: true,
		Path: "/apis/" + q.Group + "/" + q.Resource}
	var d authorizer.Decision
	var err error
	c.NoPanic("Authorize", func() { d, _, err = auth.NewCompositeAuthorizer().Authorize(context.Background(), attr) })
	if err != nil {
		c.Failf("%+v: error %v", q, err)
	}
	return d == authorizer.DecisionAllow
}

var (
	verbs     = []string{"get", "list", "watch", "create", "update", "patch", "delete", "deletecollection"}
	groups    = []string{"", "apps", "a.view.dcontroller.io", "b.view.dcontroller.io", "ab.view.dcontroller.io", "view.dcontroller.io"}
	resources = []string{"pods", "pod", "ep", "endpointview", "p"}
	resNames  = []string{"", "a", "b", "pod-1", "pod-12", "kube-system", "aba", "ab", "*"}
	nss       = []string{"", "default", "team-a", "team-b", "team", "kube-system"}
)

// pattern draws a pattern for a list of values: exact, star, prefix, suffix or middle wildcard.
func pattern(t gen.T, vs []string) string {
	v := gen.Pick(t, "value", vs...)
	switch gen.Int(t, 0, 8, "pattern") {
	case 0:
		return "*"
	case 1:
		return v[:gen.Int(t, 0, len(v), "cut")] + "*"
	case 2:
		return "*" + v[gen.Int(t, 0, len(v), "cut"):]
	case 3:
		// middle wildcard, possibly with overlapping ends
		a, b := gen.Int(t, 0, len(v), "cut"), gen.Int(t, 0, len(v), "cut")
		return v[:a] + "*" + v[b:]
	case 4:
		return gen.Pick(t, "odd", "", "nothing", strings.ToUpper(v), v+"x", "x"+v)
	}
	return v
}

func patterns(t gen.T, vs []string, lo int) []string {
	l := []string{}
	for i, n := 0, gen.Int(t, lo, 2, "n"); i < n; i++ {
		l = append(l, pattern(t, vs))
	}
	if gen.Prob(t, 1, "none") {
		return nil
	}
	return l
}

func rule(t gen.T, q Req) rbacv1.PolicyRule {
	// half of the values come from the request, so that rules match
	near := func(v string, vs []string) []string {
		if gen.Prob(t, 9, "near") {
			return []string{v, v, v, vs[0]}
		}
		return vs
	}
	r := rbacv1.PolicyRule{Verbs: patterns(t, near(q.Verb, verbs), 1), APIGroups: patterns(t, near(q.Group, groups), 1), Resources: patterns(t, near(q.Resource, resources), 1)}
	if gen.Bool(t, "names") {
		r.ResourceNames = patterns(t, near(q.Name, resNames), 1)
	}
	return r
}

func namespaces(t gen.T, q Req) []string {
	l := []string{}
	for i, n := 0, gen.Int(t, 0, 3, "namespaces"); i < n; i++ {
		switch gen.Int(t, 0, 6, "namespace") {
		case 0:
			l = append(l, "*")
		case 1, 2:
			l = append(l, q.NS)
		case 3:
			l = append(l, gen.Pick(t, "ns", "team-*", "*-a", "TEAM-A", "default ", "", "team-a,team-b"))
		default:
			l = append(l, gen.Pick(t, "ns", nss...))
		}
	}
	return l
}

func request(t gen.T) Req {
	return Req{gen.Pick(t, "verb", verbs...), gen.Pick(t, "group", groups...), gen.Pick(t, "resource", resources...), gen.Pick(t, "name", resNames...), gen.Pick(t, "ns", nss...)}
}

// TestVerdict: verdicts against the reference.
func TestVerdict(t *testing.T) {
	hx.Check(t, "random namespace lists (empty, wildcard, patterns that are no wildcards) and 0-3 rules whose entries are exact values, stars, prefix, suffix and middle wildcards (overlapping ends, too), empty or absent lists, near or far from a random request; the verdict equals the reference; non-trivial: both namespaces and rules restrict the request",
		hx.Scale(150000, 3000000), func(c *hx.Case) {
			q := request(c.T)
			g := Grants{NS: namespaces(c.T, q)}
			for i, n := 0, gen.Int(c.T, 0, 3, "rules"); i < n; i++ {
				g.Rules = append(g.Rules, rule(c.T, q))
			}
			c.Step("%s asks %+v", g, q)
			want := allowed(g, q)
			if got := ask(c, userOf(g), q); got != want {
				c.Failf("allowed: %v, want %v", got, want)
			}
			if len(g.NS) > 0 && len(g.Rules) > 0 {
				c.NonTrivial(true)
				if want {
					c.Class("allowed")
				} else {
					c.Class("denied")
				}
			}
		})
}

// TestMonotonic: adding grants never revokes, removing never grants.
func TestMonotonic(t *testing.T) {
	hx.Check(t, "random grants extended by a rule or a namespace in a random place, on a list that is not empty: what was allowed stays allowed; reordering and repeating entries changes nothing; patterns with several stars never crash; non-trivial: the extension changes the verdict",
		hx.Scale(60000, 1500000), func(c *hx.Case) {
			q := request(c.T)
			g := Grants{NS: namespaces(c.T, q)}
			for i, n := 0, gen.Int(c.T, 0, 3, "rules"); i < n; i++ {
				r := rule(c.T, q)
				if gen.Prob(c.T, 2, "stars") {
					r.Resources = append(r.Resources, gen.Pick(c.T, "stars", "**", "*a*", "p*d*s", "***", "*."))
				}
				g.Rules = append(g.Rules, r)
			}
			h := Grants{NS: append([]string{}, g.NS...), Rules: append([]rbacv1.PolicyRule{}, g.Rules...)}
			what := "repeats entries"
			switch {
			case gen.Bool(c.T, "rule") && len(g.Rules) > 0:
				what = "adds a rule"
				i := gen.Int(c.T, 0, len(g.Rules), "at")
				h.Rules = append(append(append([]rbacv1.PolicyRule{}, g.Rules[:i]...), rule(c.T, q)), g.Rules[i:]...)
			case gen.Bool(c.T, "namespace") && len(g.NS) > 0:
				what = "adds a namespace"
				i := gen.Int(c.T, 0, len(g.NS), "at")
				h.NS = append(append(append([]string{}, g.NS[:i]...), gen.Pick(c.T, "new", q.NS, "*", "x", "team-a")), g.NS[i:]...)
			default:
				for i := len(g.Rules) - 1; i >= 0; i-- {
					h.Rules = append(h.Rules, g.Rules[i])
				}
				for i := len(g.NS) - 1; i >= 0; i-- {
					h.NS = append([]string{g.NS[i]}, h.NS...)
				}
			}
			c.Step("%s asks %+v; %s: %s", g, q, what, h)
			a, b := ask(c, userOf(g), q), ask(c, userOf(h), q)
			if a && !b {
				c.Failf("allowed before, denied after: it %s", what)
			}
			if a != b && what == "repeats entries" {
				c.Failf("order or repetition decide: %v, %v", a, b)
			}
			c.NonTrivial(a != b)
			c.ClassIf(a != b, what)
		})
}

// TestToken: the verdict on what a real token carries.
func TestToken(t *testing.T) {
	_, key, err := auth.GenerateSelfSignedCert("localhost")
	if err != nil {
		t.Fatal(err)
	}
	priv, err := auth.ParsePrivateKey(key)
	if err != nil {
		t.Fatal(err)
	}
	hx.Check(t, "the same grants carried by an issued token through the authenticator to the authorizer, with four requests each, and requests without a resource, which are always allowed for a user; non-trivial: some of the requests are allowed and some denied",
		hx.Scale(6000, 100000), func(c *hx.Case) {
			q := request(c.T)
			g := Grants{NS: namespaces(c.T, q)}
			for i, n := 0, gen.Int(c.T, 0, 3, "rules"); i < n; i++ {
				g.Rules = append(g.Rules, rule(c.T, q))
			}
			tok, err := auth.NewTokenGenerator(priv).GenerateToken("u", g.NS, g.Rules, time.Hour)
			if err != nil {
				c.Failf("issue: %v", err)
			}
			r, _ := http.NewRequest("GET", "http://localhost", nil)
			r.Header.Set("Authorization", "Bearer "+tok)
			resp, ok, err := auth.NewJWTAuthenticator(&priv.PublicKey).AuthenticateRequest(r)
			if !ok || err != nil {
				c.Failf("authenticate: %v", err)
			}
			c.Step("%s", g)
			yes, no := false, false
			for i := 0; i < 4; i++ {
				c.Step("asks %+v", q)
				want := allowed(g, q)
				if got := ask(c, resp.User, q); got != want {
					c.Failf("allowed: %v, want %v", got, want)
				}
				yes, no = yes || want, no || !want
				switch gen.Int(c.T, 0, 4, "next") {
				case 0:
					q.Verb = gen.Pick(c.T, "verb", verbs...)
				case 1:
					q.NS = gen.Pick(c.T, "ns", nss...)
				case 2:
					q.Name = gen.Pick(c.T, "name", resNames...)
				case 3:
					q.Resource = gen.Pick(c.T, "resource", resources...)
				default:
					q = request(c.T)
				}
			}
			d, _, err := auth.NewCompositeAuthorizer().Authorize(context.Background(), authorizer.AttributesRecord{User: resp.User, Verb: q.Verb, Path: gen.Pick(c.T, "path", "/api", "/apis", "/healthz", "/openapi/v2", "/")})
			if d != authorizer.DecisionAllow || err != nil {
				c.Failf("a request without a resource gets %v, %v", d, err)
			}
			c.NonTrivial(yes && no)
		})
}

// TestBroken: attributes that no token gives.
func TestBroken(t *testing.T) {
	hx.Check(t, "no user, and rules that are no rule list: always denied for resource requests, never a crash; non-trivial: all",
		hx.Scale(5000, 50000), func(c *hx.Case) {
			q := request(c.T)
			s := gen.Pick(c.T, "rules", "", "x", "{", "[1]", "{\"a\":1}", "[[]]", "[{\"verbs\":\"*\"}]", "[{\"verbs\":[1]}]", "null", "[]", "[null]",
				string(gen.Mutate(c.T, []byte(`[{"verbs":["*"],"apiGroups":["*"],"resources":["x"]}]`))))
			c.Step("rules %q asks %+v", s, q)
			u := &user.DefaultInfo{Name: "u", Extra: map[string][]string{"rules": {s}}}
			var rs []rbacv1.PolicyRule
			want := false
			if json.Unmarshal([]byte(s), &rs) == nil {
				for _, r := range rs {
					want = want || ruleAllows(r, q)
				}
			}
			if got := ask(c, u, q); got != want {
				c.Failf("allowed: %v, want %v", got, want)
			}
			d := authorizer.DecisionAllow
			c.NoPanic("Authorize", func() {
				d, _, _ = auth.NewCompositeAuthorizer().Authorize(context.Background(), authorizer.AttributesRecord{Verb: q.Verb, Resource: q.Resource, ResourceRequest: true})
			})
			if d == authorizer.DecisionAllow {
				c.Failf("allowed without a user")
			}
			c.NonTrivial(true)
		})
}
