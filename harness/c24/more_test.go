package c24

import (
	"bytes"
	"crypto/tls"
	"crypto/x509"
	"fmt"
	"net"
	"net/http"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"testing"
	"time"

	"dcverif/gen"
	"dcverif/hx"
	"dcverif/kube"
	"dcverif/rst"

	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/auth"
)

var scratch string

func TestMain(m *testing.M) {
	dir, err := os.MkdirTemp("", "verif-c24-")
	if err != nil {
		panic(err)
	}
	scratch = dir
	rc := m.Run()
	kube.Stop()
	os.RemoveAll(dir)
	os.Exit(rc)
}

// TestConcurrent: clients with different tokens at the same time.
func TestConcurrent(t *testing.T) {
	hx.Check(t, "3 to 8 clients of one user name with tokens of different grants, or without valid ones, make 3 to 10 reads, lists and patches each, 10 times and at the same time; every answer is unauthorized, forbidden or that of a served request, as the reference says for this client; non-trivial: there are answers of all three kinds",
		hx.Scale(250, 6000), func(c *hx.Case) {
			if err := setup(); err != nil {
				c.Failf("no server: %v", err)
			}
			tg = own
			op := rst.Operator()
			w := &world{c: c, objs: map[GVK]map[string]M{}}
			for _, k := range kinds {
				g := rst.Kind(op, k)
				w.gvks = append(w.gvks, g)
				w.objs[g] = map[string]M{}
			}
			w.groups = []string{w.gvks[0].Group}
			if err := srv.S.RegisterGVKs(w.gvks); err != nil {
				c.Failf("registration: %v", err)
			}
			defer srv.S.UnregisterGVKs(w.gvks)
			for _, g := range w.gvks {
				for _, ns := range nss {
					m := w.object(g, ns, "a")
					w.objs[g][id(m)] = m
					if err := tg.put(m); err != nil {
						c.Failf("create: %v", err)
					}
				}
			}
			type client struct {
				header string
				calls  []call
				want   []int
			}
			cs := []client{}
			seen := map[int]bool{}
			for i, n := 0, gen.Int(c.T, 3, 8, "clients"); i < n; i++ {
				x := client{}
				for j, m := 0, gen.Int(c.T, 3, 10, "calls"); j < m; j++ {
					g, ns := w.gvks[gen.Int(c.T, 0, 1, "view")], gen.Pick(c.T, "ns", nss...)
					q := call{resource: true, gvk: g, ask: Ask{Group: g.Group, Resource: strings.ToLower(g.Kind), NS: ns, Name: "a"}}
					switch gen.Int(c.T, 0, 3, "call") {
					case 0, 1:
						q.method, q.path, q.ask.Verb = "GET", rst.Path(g, ns, "a"), "get"
					case 2:
						if gen.Bool(c.T, "all") {
							q.ask.NS = ""
						}
						q.method, q.path, q.ask.Verb, q.ask.Name = "GET", rst.Path(g, q.ask.NS), "list", ""
					case 3:
						q.method, q.path, q.ask.Verb, q.typ = "PATCH", rst.Path(g, ns, "a"), "patch", "application/merge-patch+json"
						q.body = M{"spec": M{fmt.Sprintf("f%d", i): int64(j)}}
					}
					x.calls = append(x.calls, q)
				}
				qs := []Ask{}
				for _, q := range x.calls {
					qs = append(qs, q.ask)
				}
				g := grants(c.T, qs, w.groups)
				h, valid, what := header(c, g)
				x.header = h
				c.Step("client %d with a %s of %s", i, what, g)
				for _, q := range x.calls {
					code := 200
					if !valid {
						code = 401
					} else if !g.allows(q.ask) {
						code = 403
					}
					seen[code] = true
					x.want = append(x.want, code)
					c.Step("  %s: %d", q, code)
				}
				cs = append(cs, x)
			}
			c.NonTrivial(len(seen) == 3)
			fails := make([]string, len(cs))
			var wg sync.WaitGroup
			for i, x := range cs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for r := 0; r < 10; r++ {
						for j, q := range x.calls {
							code, b, err := send(q, x.header, false, nil)
							if err != nil || code != x.want[j] {
								fails[i] = fmt.Sprintf("client %d: %s: %d %v %v, want %d", i, q, code, b, err, x.want[j])
								return
							}
						}
					}
				}()
			}
			c.MustReturn("the clients", 120*time.Second, wg.Wait)
			for _, f := range fails {
				if f != "" {
					c.Failf("%s", f)
				}
			}
		})
}

// TestProgram: the same requests to the program as users run it.
func TestProgram(t *testing.T) {
	if !hx.FirstShard() {
		t.Skip("runs in the first process only")
	}
	if l, err := net.Listen("tcp", "0.0.0.0:8443"); err != nil {
		fmt.Println("NOTE: the port of the program is taken, TestProgram is not run:", err)
		t.Skip(err)
	} else {
		l.Close()
	}
	kube.Start(t)
	p, stop, err := program()
	refused := err != nil && (strings.Contains(err.Error(), "does not serve the views: 401") || strings.Contains(err.Error(), "does not serve the views: 403"))
	if err != nil && !refused {
		fmt.Println("NOTE: the program cannot be started, TestProgram is not run:", err)
		t.Skip(err)
	}
	if stop != nil {
		defer stop()
	}
	hx.Check(t, "the requests and tokens of TestRequests to a running dctl start with keys of dctl generate-keys, on a real Kubernetes API server, for the views of an Operator resource, over TLS; the answers and the stored objects are as the reference says; non-trivial: requests were refused as unauthorized, as forbidden, and served",
		hx.Whole(150, 4000), func(c *hx.Case) {
			if refused {
				c.Failf("a token without restrictions is refused: %v", err)
			}
			tg = p
			w := &world{c: c, objs: map[GVK]map[string]M{}}
			for _, o := range []string{"opa", "xopa"} {
				for _, k := range kinds {
					g := rst.Kind(o, k)
					w.gvks = append(w.gvks, g)
					w.objs[g] = map[string]M{}
				}
				w.groups = append(w.groups, w.gvks[len(w.gvks)-1].Group)
			}
			full := call{method: "DELETE"}
			for _, g := range w.gvks {
				full.path = rst.Path(g, "")
				if code, r, err := send(full, p.admin(), true, nil); err != nil || code != 200 {
					c.Failf("HARNESS: cannot remove the objects of %s: %d %v %v", g, code, r, err)
				}
			}
			w.run()
		})
}

func (p *place) admin() string {
	tok, err := auth.NewTokenGenerator(p.priv).GenerateToken("admin", nil, nil, time.Hour)
	if err != nil {
		panic(err)
	}
	return "Bearer " + tok
}

func program() (*place, func(), error) {
	bin := filepath.Join(scratch, "dctl")
	cmd := exec.Command("go", "build", "-o", bin, "github.com/l7mp/dcontroller")
	if d := os.Getenv("VERIF_DIR"); d != "" {
		cmd.Dir = filepath.Join(d, "harness")
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		return nil, nil, fmt.Errorf("build: %v\n%s", err, out)
	}
	run := func(dir string) (*place, error) {
		if err := os.MkdirAll(dir, 0o700); err != nil {
			return nil, err
		}
		c := exec.Command(bin, "generate-keys", "--hostname=localhost", "--hostname=127.0.0.1")
		c.Dir, c.Env = dir, []string{"HOME=" + dir, "PATH=/nonexistent"}
		if out, err := c.CombinedOutput(); err != nil {
			return nil, fmt.Errorf("generate-keys: %v\n%s", err, out)
		}
		p := &place{}
		var err error
		if p.pub, err = os.ReadFile(filepath.Join(dir, "apiserver.crt")); err != nil {
			return nil, err
		}
		if p.key, err = os.ReadFile(filepath.Join(dir, "apiserver.key")); err != nil {
			return nil, err
		}
		p.priv, err = auth.ParsePrivateKey(p.key)
		return p, err
	}
	other, err := run(filepath.Join(scratch, "other"))
	if err != nil {
		return nil, nil, err
	}
	dir := filepath.Join(scratch, "program")
	p, err := run(dir)
	if err != nil {
		return nil, nil, err
	}
	p.foreign = other.priv
	kc := filepath.Join(dir, "kubeconfig")
	if err := os.WriteFile(kc, kube.Config(), 0o600); err != nil {
		return nil, nil, err
	}
	var ctls []opv1a1.Controller
	for _, k := range kinds {
		// reads the view but never writes anything
		ctl := opv1a1.Controller{Name: strings.ToLower(k), Sources: []opv1a1.Source{{Resource: opv1a1.Resource{Kind: k}}}, Target: opv1a1.Target{Resource: opv1a1.Resource{Kind: "Out"}}}
		if err := gen.Convert([]any{M{"@select": M{"@eq": L{int64(1), int64(2)}}}}, &ctl.Pipeline); err != nil {
			return nil, nil, err
		}
		ctls = append(ctls, ctl)
	}
	for _, o := range []string{"opa", "xopa"} {
		if err := kube.Client.Create(ctx, &opv1a1.Operator{ObjectMeta: metav1.ObjectMeta{Name: o}, Spec: opv1a1.OperatorSpec{Controllers: ctls}}); err != nil {
			return nil, nil, err
		}
	}
	srv := exec.Command(bin, "start", "--metrics-bind-address=0", "--health-probe-bind-address=0", "--zap-log-level=error")
	srv.Dir, srv.Env = dir, []string{"HOME=" + dir, "PATH=/nonexistent", "KUBECONFIG=" + kc}
	var out bytes.Buffer
	srv.Stdout, srv.Stderr = &out, &out
	if err := srv.Start(); err != nil {
		return nil, nil, err
	}
	done := make(chan struct{})
	go func() { _ = srv.Wait(); close(done) }()
	stop := func() {
		_ = srv.Process.Signal(os.Interrupt)
		select {
		case <-done:
		case <-time.After(20 * time.Second):
			_ = srv.Process.Kill()
			<-done
		}
	}
	pool := x509.NewCertPool()
	pool.AppendCertsFromPEM(p.pub)
	p.https = "https://127.0.0.1:8443"
	p.secure = &http.Client{Transport: &http.Transport{TLSClientConfig: &tls.Config{RootCAs: pool}, MaxIdleConnsPerHost: 16}}
	p.list = func(g GVK) ([]M, error) {
		code, r, err := send(call{method: "GET", path: rst.Path(g, "")}, p.admin(), true, nil)
		if err != nil || code != 200 {
			return nil, fmt.Errorf("%d %v %v", code, r, err)
		}
		ms := []M{}
		l, _ := r["items"].(L)
		for _, x := range l {
			m, _ := x.(M)
			ms = append(ms, m)
		}
		return ms, nil
	}
	p.put = func(m M) error {
		gv, _ := m["apiVersion"].(string)
		md, _ := m["metadata"].(M)
		code, r, err := send(call{method: "POST", path: fmt.Sprintf("/apis/%s/namespaces/%s/%s", gv, md["namespace"], strings.ToLower(m["kind"].(string))), body: m}, p.admin(), true, nil)
		if err != nil || code != 201 {
			return fmt.Errorf("%d %v %v", code, r, err)
		}
		return nil
	}
	tg = p
	for i := 0; ; i++ {
		missing := ""
		for _, o := range []string{"opa", "xopa"} {
			for _, k := range kinds {
				if _, err := p.list(rst.Kind(o, k)); err != nil {
					missing = err.Error()
				}
			}
		}
		if missing == "" {
			return p, stop, nil
		}
		select {
		case <-done:
			return nil, nil, fmt.Errorf("dctl start has ended: %s", tail(out.String()))
		default:
		}
		if i > 600 {
			stop()
			return nil, nil, fmt.Errorf("dctl start does not serve the views: %s\n%s", missing, tail(out.String()))
		}
		time.Sleep(100 * time.Millisecond)
	}
}

func tail(s string) string {
	if len(s) > 3000 {
		return s[len(s)-3000:]
	}
	return s
}
