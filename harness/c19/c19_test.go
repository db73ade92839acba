package c19

import (
	"bytes"
	"crypto"
	"crypto/hmac"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha256"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"net/http"
	"sort"
	"strings"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	rbacv1 "k8s.io/api/rbac/v1"
	"k8s.io/apiserver/pkg/authentication/authenticator"

	"github.com/l7mp/dcontroller/pkg/auth"
)

type M = gen.M
type L = gen.L

type pair struct {
	priv      *rsa.PrivateKey
	pub       *rsa.PublicKey
	cert, key []byte
}

var keys []pair

func pairs(t *testing.T) []pair {
	for len(keys) < 3 {
		cert, key, err := auth.GenerateSelfSignedCert("localhost")
		if err != nil {
			t.Fatal(err)
		}
		priv, err := auth.ParsePrivateKey(key)
		if err != nil {
			t.Fatal(err)
		}
		pub, err := auth.ParsePublicKey(cert)
		if err != nil {
			t.Fatal(err)
		}
		keys = append(keys, pair{priv, pub, cert, key})
	}
	return keys
}

func request(values ...string) *http.Request {
	r, _ := http.NewRequest("GET", "http://localhost/apis", nil)
	for _, v := range values {
		r.Header.Add("Authorization", v)
	}
	return r
}

var cur struct {
	c *hx.Case
	m map[*rsa.PublicKey]*auth.JWTAuthenticator
}

// authenticatorOf is the authenticator of the case for a key: as in a server, one sees all requests.
func authenticatorOf(c *hx.Case, pub *rsa.PublicKey) *auth.JWTAuthenticator {
	if cur.c != c {
		cur.c, cur.m = c, map[*rsa.PublicKey]*auth.JWTAuthenticator{}
	}
	if cur.m[pub] == nil {
		cur.m[pub] = auth.NewJWTAuthenticator(pub)
	}
	return cur.m[pub]
}

func verdict(c *hx.Case, pub *rsa.PublicKey, values ...string) (resp *authenticator.Response, ok bool, err error) {
	r := request(values...)
	c.NoPanic("AuthenticateRequest", func() { resp, ok, err = authenticatorOf(c, pub).AuthenticateRequest(r) })
	return
}

// refused fails unless the request is refused with an error and no user.
func refused(c *hx.Case, what string, pub *rsa.PublicKey, values ...string) {
	resp, ok, err := verdict(c, pub, values...)
	if ok || resp != nil {
		c.Failf("%s is accepted: %v", what, values)
	}
	if err == nil {
		c.Failf("%s is refused without an error: %v", what, values)
	}
}

var names = []string{"alice", "bob", "system:admin", "", "é✓", "a\"b\\", "null", "x\ny", "user with space", "admin'--"}

func strs(t gen.T, vs ...string) []string {
	l := []string{}
	for i, n := 0, gen.Int(t, 0, 3, "n"); i < n; i++ {
		l = append(l, gen.Pick(t, "s", vs...))
	}
	return l
}

func rules(t gen.T) []rbacv1.PolicyRule {
	l := []rbacv1.PolicyRule{}
	for i, n := 0, gen.Int(t, 0, 3, "rules"); i < n; i++ {
		l = append(l, rbacv1.PolicyRule{
			Verbs: strs(t, "get", "list", "*", ""), APIGroups: strs(t, "", "apps", "*.view.dcontroller.io"),
			Resources: strs(t, "pods", "é", "*"), ResourceNames: strs(t, "a", "b\"", "<x>&"),
			NonResourceURLs: strs(t, "/healthz", "*"),
		})
	}
	return l
}

// canon gives rules in a form that ignores the difference between absent and empty lists.
func canon(rs []rbacv1.PolicyRule) string {
	b := &strings.Builder{}
	for _, r := range rs {
		fmt.Fprintf(b, "%q %q %q %q %q;", r.Verbs, r.APIGroups, r.Resources, r.ResourceNames, r.NonResourceURLs)
	}
	return b.String()
}

// TestIssued: issued tokens authenticate as exactly their user.
func TestIssued(t *testing.T) {
	ks := pairs(t)
	hx.Check(t, "tokens for random users (empty, unicode, quotes), namespace lists, rule lists and lifetimes from -10 years to 100 years; a token whose lifetime is at least 10 s ahead authenticates with its key as exactly that user with exactly those namespaces and rules, one that ended at least 10 s ago is refused, as is every token under another key; non-trivial: a live token with namespaces and rules; up to 3 tokens per case are shown to the same authenticator, again and again in random order",
		hx.Scale(6000, 100000), func(c *hx.Case) {
			again := []func(){}
			for n := gen.Int(c.T, 1, 3, "tokens"); n > 0; n-- {
				again = append(again, issued(c, ks))
			}
			for len(again) > 1 && gen.Prob(c.T, 12, "again") {
				again[gen.Int(c.T, 0, len(again)-1, "which")]()
			}
		})
}

// issued issues a token and checks it; it returns the check.
func issued(c *hx.Case, ks []pair) func() {
	k := gen.Int(c.T, 0, len(ks)-1, "key")
	user := gen.Pick(c.T, "user", names...)
	nss := strs(c.T, "default", "team-a", "*", "", "kube-system", "é")
	rs := rules(c.T)
	secs := gen.Pick(c.T, "lifetime", 10, 30, 60, 3600, 86400, 3153600000, -10, -60, -3600, -315360000)
	jitter := gen.Int(c.T, 0, 999999999, "ns")
	d := time.Duration(secs)*time.Second + time.Duration(jitter)
	if secs < 0 {
		d = time.Duration(secs)*time.Second - time.Duration(jitter)
	}
	c.Step("user %q namespaces %q rules %s lifetime %v", user, nss, canon(rs), d)
	var tok string
	var err error
	nsb, rsb := fmt.Sprintf("%q", nss), canon(rs)
	c.NoPanic("GenerateToken", func() { tok, err = auth.NewTokenGenerator(ks[k].priv).GenerateToken(user, nss, rs, d) })
	if err != nil {
		c.Failf("cannot issue: %v", err)
	}
	if fmt.Sprintf("%q", nss) != nsb || canon(rs) != rsb {
		c.Failf("issuing changed its arguments")
	}
	for o := range ks {
		if o != k {
			refused(c, "a token under another key", ks[o].pub, "Bearer "+tok)
		}
	}
	check := func() {
		if secs < 0 {
			refused(c, "an expired token", ks[k].pub, "Bearer "+tok)
			c.Class("expired")
			return
		}
		resp, ok, err := verdict(c, ks[k].pub, "Bearer "+tok)
		if !ok || err != nil || resp == nil || resp.User == nil {
			c.Failf("a valid token is refused: %v", err)
		}
		u := resp.User
		if u.GetName() != user {
			c.Failf("authenticated as %q", u.GetName())
		}
		if u.GetUID() != "" || len(u.GetGroups()) != 0 {
			c.Failf("the user has uid %q and groups %q", u.GetUID(), u.GetGroups())
		}
		extra := u.GetExtra()
		if fmt.Sprintf("%q", append([]string{}, extra["namespaces"]...)) != nsb {
			c.Failf("namespaces are %q", extra["namespaces"])
		}
		got := []rbacv1.PolicyRule{}
		if len(extra["rules"]) > 1 {
			c.Failf("rules are %q", extra["rules"])
		}
		for _, s := range extra["rules"] {
			if err := json.Unmarshal([]byte(s), &got); err != nil {
				c.Failf("rules are %q: %v", s, err)
			}
		}
		if canon(got) != rsb {
			c.Failf("rules are %s", canon(got))
		}
		for f := range extra {
			if f != "namespaces" && f != "rules" {
				c.Failf("the user has an extra attribute %s", f)
			}
		}
		c.NonTrivial(len(nss) > 0 && len(rs) > 0)
	}
	check()
	return check
}

var b64 = base64.RawURLEncoding

func sign(ks pair, alg string, signing string) []byte {
	hashes := map[string]crypto.Hash{"256": crypto.SHA256, "384": crypto.SHA384, "512": crypto.SHA512}
	switch {
	case strings.HasPrefix(alg, "RS") || strings.HasPrefix(alg, "PS"):
		h, ok := hashes[alg[2:]]
		if !ok {
			return nil
		}
		w := h.New()
		w.Write([]byte(signing))
		if alg[0] == 'R' {
			s, err := rsa.SignPKCS1v15(rand.Reader, ks.priv, h, w.Sum(nil))
			if err != nil {
				panic(err)
			}
			return s
		}
		s, err := rsa.SignPSS(rand.Reader, ks.priv, h, w.Sum(nil), &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthAuto})
		if err != nil {
			panic(err)
		}
		return s
	case strings.HasPrefix(alg, "HS"):
		// signed with the public material that everyone knows
		m := hmac.New(sha256.New, ks.cert)
		m.Write([]byte(signing))
		return m.Sum(nil)
	}
	return nil
}

func make1(ks pair, header, claims any, alg string) string {
	s := b64.EncodeToString([]byte(ref.JSON(header))) + "." + b64.EncodeToString([]byte(ref.JSON(claims)))
	return s + "." + b64.EncodeToString(sign(ks, alg, s))
}

// TestForged: tokens made by hand: algorithm, times, types of claims.
func TestForged(t *testing.T) {
	ks := pairs(t)
	hx.Check(t, "hand-made tokens: header algorithm and real signature algorithm drawn from the RSA, RSA-PSS, HMAC (keyed with the certificate), ECDSA and none families and random strings, signing key right or wrong, not-before and expiry at least 10 s before or after now or absent, extra header fields naming keys, ill-typed claims; accepted exactly if signed as RS256 with the right key within its time, and then as the named user; non-trivial: exactly one thing is wrong",
		hx.Scale(9000, 150000), func(c *hx.Case) {
			k := ks[gen.Int(c.T, 0, len(ks)-1, "key")]
			signer := k
			wrong := 0
			alg := "RS256"
			if gen.Prob(c.T, 6, "alg") {
				alg = gen.Pick(c.T, "header alg", "RS384", "RS512", "PS256", "PS384", "PS512", "HS256", "HS384", "HS512", "ES256", "EdDSA", "none", "None", "NONE", "nOnE", "", "rs256", "RS256 ", "RS1024")
			}
			used := alg
			if gen.Prob(c.T, 3, "other signature") {
				used = gen.Pick(c.T, "used alg", "RS256", "RS512", "PS256", "HS256", "none")
			}
			if alg != "RS256" || used != "RS256" {
				wrong++
			}
			if gen.Prob(c.T, 4, "signer") {
				o := ks[gen.Int(c.T, 0, len(ks)-1, "signer key")]
				if o.priv != k.priv {
					signer = o
					wrong++
				}
			}
			now := time.Now().Unix()
			user := gen.Pick(c.T, "user", names...)
			claims := M{"username": user, "iss": "dcontroller", "exp": now + 3600}
			if gen.Bool(c.T, "iat") {
				claims["iat"] = now - 100
			}
			switch gen.Int(c.T, 0, 5, "exp") {
			case 0:
				claims["exp"] = now - int64(gen.Pick(c.T, "ago", 10, 60, 100000, int(now)-1))
				wrong++
			case 1:
				claims["exp"] = now + int64(gen.Pick(c.T, "ahead", 60, 100000, 4000000000))
			}
			switch gen.Int(c.T, 0, 5, "nbf") {
			case 0:
				claims["nbf"] = now + int64(gen.Pick(c.T, "ahead", 60, 100000, 4000000000))
				wrong++
			case 1, 2:
				claims["nbf"] = now - int64(gen.Pick(c.T, "ago", 10, 60, 100000))
			}
			header := M{"alg": alg, "typ": "JWT"}
			if gen.Prob(c.T, 3, "header extra") {
				header[gen.Pick(c.T, "field", "kid", "jku", "x5c", "jwk", "crit")] = gen.Pick[any](c.T, "value", "x", L{"x"}, M{"kty": "RSA"}, "../../x")
				// an unknown critical field is free to be refused
				if _, ok := header["crit"]; ok {
					delete(header, "crit")
				}
			}
			nss := strs(c.T, "a", "b")
			if len(nss) > 0 {
				l := L{}
				for _, s := range nss {
					l = append(l, s)
				}
				claims["namespaces"] = l
			}
			if gen.Prob(c.T, 3, "ill-typed") {
				f := gen.Pick(c.T, "claim", "username", "namespaces", "rules", "exp", "nbf")
				claims[f] = gen.Pick[any](c.T, "ill", M{"a": int64(1)}, L{M{"a": L{}}, int64(1)}, L{true}, true)
				wrong++
			}
			tok := make1(signer, header, claims, used)
			if gen.Prob(c.T, 2, "stripped") {
				tok = tok[:strings.LastIndex(tok, ".")+1]
				wrong++
			}
			c.Step("header %s claims %s, signed as %s, right key %v: %d things wrong", ref.JSON(header), ref.JSON(claims), used, signer.priv == k.priv, wrong)
			if wrong > 0 {
				refused(c, "a forged token", k.pub, "Bearer "+tok)
			} else {
				resp, ok, err := verdict(c, k.pub, "Bearer "+tok)
				if !ok || err != nil {
					c.Failf("a valid token is refused: %v", err)
				}
				if resp.User.GetName() != user || fmt.Sprintf("%q", append([]string{}, resp.User.GetExtra()["namespaces"]...)) != fmt.Sprintf("%q", nss) {
					c.Failf("authenticated as %q of %q", resp.User.GetName(), resp.User.GetExtra()["namespaces"])
				}
				c.Class("valid")
			}
			c.NonTrivial(wrong == 1)
			c.Key("%s %s %v %s", ref.JSON(header), ref.JSON(claims), used, tok[len(tok)-min(20, len(tok)):])
		})
}

// TestAltered: byte alterations of valid tokens.
func TestAltered(t *testing.T) {
	ks := pairs(t)
	toks := []string{}
	for i, u := range []string{"alice", "bob", "longer-name:x"} {
		tok, err := auth.NewTokenGenerator(ks[0].priv).GenerateToken(u, []string{"default"}[:i%2], nil, time.Duration(i+1)*24*time.Hour)
		if err != nil {
			t.Fatal(err)
		}
		toks = append(toks, tok)
	}
	hx.Check(t, "valid tokens with 1-3 alterations: a character replaced, inserted, removed, bits flipped, parts swapped with those of other tokens, dropped, repeated, claims rewritten under the old signature, padding and white space added; refused with an error unless the signed text is the same and the signature decodes to the same bytes; non-trivial: the altered text still has three parts that decode",
		hx.Scale(30000, 600000), func(c *hx.Case) {
			base := gen.Pick(c.T, "token", toks...)
			tok := []byte(base)
			how := []string{}
			const alpha = "ABCXYZabcxyz0189-_.=+/ \x00\xff\t"
			for i, n := 0, gen.Int(c.T, 1, 3, "n"); i < n; i++ {
				pos := gen.Int(c.T, 0, max(0, len(tok)-1), "pos")
				if gen.Prob(c.T, 3, "end") {
					pos = max(0, len(tok)-1)
				}
				if len(tok) == 0 {
					break
				}
				op := gen.Int(c.T, 0, 8, "op")
				how = append(how, fmt.Sprintf("%d@%d", op, pos))
				parts := strings.Split(string(tok), ".")
				switch op {
				case 0:
					tok[pos] = alpha[gen.Int(c.T, 0, len(alpha)-1, "ch")]
				case 1:
					tok[pos] ^= 1 << gen.Int(c.T, 0, 7, "bit")
				case 2:
					tok = append(tok[:pos:pos], append([]byte{alpha[gen.Int(c.T, 0, len(alpha)-1, "ch")]}, tok[pos:]...)...)
				case 3:
					tok = append(tok[:pos:pos], tok[pos+1:]...)
				case 4:
					o := strings.Split(gen.Pick(c.T, "other", toks...), ".")
					j := gen.Int(c.T, 0, 2, "part")
					if j < len(parts) {
						parts[j] = o[j]
					}
					tok = []byte(strings.Join(parts, "."))
				case 5:
					j := gen.Int(c.T, 0, len(parts)-1, "part")
					parts = append(parts[:j:j], parts[j+1:]...)
					tok = []byte(strings.Join(parts, "."))
				case 6:
					tok = append(tok, gen.Pick(c.T, "tail", "=", "==", ".", "."+parts[0], "A", " ", "\n")...)
				case 7:
					if len(parts) == 3 {
						if b, err := b64.DecodeString(parts[1]); err == nil {
							b = bytes.ReplaceAll(b, []byte("alice"), []byte("admin"))
							b = bytes.ReplaceAll(b, []byte(`"exp":1`), []byte(`"exp":9`))
							parts[1] = b64.EncodeToString(b)
						}
						tok = []byte(strings.Join(parts, "."))
					}
				case 8:
					if len(parts) == 3 {
						if b, err := b64.DecodeString(parts[0]); err == nil {
							b = bytes.ReplaceAll(b, []byte("RS256"), []byte(gen.Pick(c.T, "alg", "none", "HS256", "RS512")))
							parts[0] = b64.EncodeToString(b)
						}
						if gen.Bool(c.T, "unsigned") {
							parts[2] = ""
						}
						tok = []byte(strings.Join(parts, "."))
					}
				}
			}
			c.Step("token %s altered by %v: %q", base[:20]+"...", how, string(tok))
			// what must be accepted or may be
			same := false
			for _, o := range toks {
				op, tp := strings.Split(o, "."), strings.Split(string(tok), ".")
				if len(tp) == 3 && tp[0] == op[0] && tp[1] == op[1] {
					a, _ := base64.RawURLEncoding.DecodeString(op[2])
					b, err := base64.RawURLEncoding.DecodeString(strings.TrimRight(tp[2], "= "))
					same = same || (err == nil && bytes.Equal(a, b))
				}
				if string(tok) == o {
					resp, ok, err := verdict(c, ks[0].pub, "Bearer "+string(tok))
					if !ok || err != nil || resp == nil {
						c.Failf("a valid token is refused: %v", err)
					}
				}
			}
			if same {
				c.Class("same meaning")
				verdict(c, ks[0].pub, "Bearer "+string(tok))
				return
			}
			refused(c, "an altered token", ks[0].pub, "Bearer "+string(tok))
			tp := strings.Split(string(tok), ".")
			if len(tp) == 3 {
				_, e1 := b64.DecodeString(tp[0])
				_, e2 := b64.DecodeString(tp[1])
				_, e3 := b64.DecodeString(tp[2])
				c.NonTrivial(e1 == nil && e2 == nil && e3 == nil)
			}
		})
}

// TestHeader: authorization headers of all kinds.
func TestHeader(t *testing.T) {
	ks := pairs(t)
	tok, err := auth.NewTokenGenerator(ks[0].priv).GenerateToken("alice", nil, nil, time.Hour)
	if err != nil {
		t.Fatal(err)
	}
	hx.Check(t, "authorization headers: schemes in any case, other schemes, missing and doubled separators, several headers, empty values, random bytes, very long values; never accepted unless it is the scheme and the valid token, never a crash, an absent header authenticates nobody; non-trivial: the header contains the valid token in a form that is not allowed",
		hx.Scale(20000, 300000), func(c *hx.Case) {
			vals := []string{}
			for i, n := 0, gen.Pick(c.T, "headers", 0, 1, 1, 1, 1, 1, 2); i < n; i++ {
				scheme := gen.Pick(c.T, "scheme", "Bearer", "bearer", "BEARER", "Basic", "Token", "", "Bearer,", "Bearer:", "JWT", " Bearer", "Negotiate")
				sep := gen.Pick(c.T, "sep", " ", "", "  ", "\t", ":", "=")
				val := gen.Pick(c.T, "val", tok, tok, tok+" ", " "+tok, tok+","+tok, "", ".", "..", "...", "a.b.c", "null", "{}", strings.Repeat("A", 10000), strings.Repeat(".", 1000), "Bearer "+tok,
					string(gen.Mutate(c.T, []byte(tok[:40]))))
				vals = append(vals, scheme+sep+val)
			}
			c.Step("%.200q", vals)
			if len(vals) == 0 || vals[0] == "" {
				resp, ok, err := verdict(c, ks[0].pub, vals...)
				if ok || resp != nil {
					c.Failf("authenticated without a token (%v)", err)
				}
				return
			}
			if vals[0] == "Bearer "+tok {
				if _, ok, err := verdict(c, ks[0].pub, vals...); !ok || err != nil {
					c.Failf("a valid token is refused: %v", err)
				}
				c.Class("valid")
				return
			}
			if f := strings.Fields(vals[0]); len(f) == 2 && strings.EqualFold(f[0], "bearer") && f[1] == tok {
				// case and white space are free
				verdict(c, ks[0].pub, vals...)
				c.Class("case or white space")
				return
			}
			refused(c, "a malformed header", ks[0].pub, vals...)
			c.NonTrivial(strings.Contains(vals[0], tok))
		})
}

// TestExpiry: tokens stop working when they expire.
func TestExpiry(t *testing.T) {
	if !hx.FirstShard() {
		t.Skip()
	}
	ks := pairs(t)
	hx.Check(t, "40 tokens with lifetimes between 1 and 5 s, asked for again and again until 3 s after the last one's end; accepted at least until a second before the end (expiry times have whole seconds) and refused after it; non-trivial: all",
		1, func(c *hx.Case) {
			type live struct {
				tok        string
				start, end time.Time
			}
			ls := []live{}
			ds := []int{}
			for i := 0; i < 40; i++ {
				ms := gen.Int(c.T, 1000, 5000, "ms")
				ds = append(ds, ms)
				before := time.Now()
				tok, err := auth.NewTokenGenerator(ks[0].priv).GenerateToken("u", nil, nil, time.Duration(ms)*time.Millisecond)
				if err != nil {
					c.Failf("cannot issue: %v", err)
				}
				after := time.Now()
				ls = append(ls, live{tok, before.Add(time.Duration(ms) * time.Millisecond), after.Add(time.Duration(ms) * time.Millisecond)})
			}
			sort.Ints(ds)
			c.Step("lifetimes %v ms", ds)
			for end := time.Now().Add(7 * time.Second); time.Now().Before(end); time.Sleep(50 * time.Millisecond) {
				for _, l := range ls {
					before := time.Now()
					_, ok, _ := verdict(c, ks[0].pub, "Bearer "+l.tok)
					after := time.Now()
					if ok && before.After(l.end) {
						c.Failf("accepted %v after its end", before.Sub(l.end))
					}
					if !ok && after.Before(l.start.Add(-time.Second)) {
						c.Failf("refused %v before its end", l.start.Sub(after))
					}
				}
			}
			c.NonTrivial(true)
		})
}
