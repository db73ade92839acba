// Package c26 decides C26: operator diagrams show every controller and data flow.
package c26

import (
	"encoding/json"
	"fmt"
	"html"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"dcverif/gen"
	"dcverif/hx"

	"sigs.k8s.io/yaml"

	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
	"github.com/l7mp/dcontroller/pkg/visualize"
)

var scratch, dctl string

func TestMain(m *testing.M) {
	dir, err := os.MkdirTemp("", "verif-c26-")
	if err != nil {
		panic(err)
	}
	scratch = dir
	rc := m.Run()
	os.RemoveAll(dir)
	os.Exit(rc)
}

// ---- the diagram as a graph ----

type node struct {
	label string
}

type edge struct {
	from, to, label string
}

type diagram struct {
	nodes map[string]node
	edges []edge
}

type parser struct {
	s string
	i int
}

func (p *parser) errf(f string, args ...any) error {
	lo, hi := max(0, p.i-40), min(len(p.s), p.i+40)
	return fmt.Errorf("%s at offset %d, near %q", fmt.Sprintf(f, args...), p.i, p.s[lo:hi])
}

func (p *parser) space() {
	for p.i < len(p.s) && strings.ContainsRune(" \t\r\n", rune(p.s[p.i])) {
		p.i++
	}
}

func (p *parser) eat(tok string) bool {
	if strings.HasPrefix(p.s[p.i:], tok) {
		p.i += len(tok)
		return true
	}
	return false
}

func (p *parser) ident() string {
	j := p.i
	for j < len(p.s) && (p.s[j] == '_' || p.s[j] >= '0' && p.s[j] <= '9' || p.s[j] >= 'a' && p.s[j] <= 'z' || p.s[j] >= 'A' && p.s[j] <= 'Z') {
		j++
	}
	id := p.s[p.i:j]
	p.i = j
	return id
}

// ---- DOT: the part of the grammar for graphs without subgraphs ----

// dotID reads an identifier or a quoted string.
func (p *parser) dotID() (string, error) {
	if !p.eat(`"`) {
		if id := p.ident(); id != "" {
			return id, nil
		}
		return "", p.errf("identifier expected")
	}
	var b strings.Builder
	for p.i < len(p.s) {
		ch := p.s[p.i]
		switch {
		case ch == '"':
			p.i++
			return b.String(), nil
		case ch == '\\' && p.i+1 < len(p.s):
			// the escapes of labels
			switch p.s[p.i+1] {
			case 'n':
				b.WriteByte('\n')
			case '"', '\\':
				b.WriteByte(p.s[p.i+1])
			default:
				return "", p.errf("escape sequence with another meaning")
			}
			p.i += 2
		default:
			b.WriteByte(ch)
			p.i++
		}
	}
	return "", p.errf("unterminated string")
}

func (p *parser) dotAttrs() (map[string]string, error) {
	m := map[string]string{}
	p.space()
	for p.eat("[") {
		for {
			p.space()
			if p.eat("]") {
				break
			}
			k, err := p.dotID()
			if err != nil {
				return nil, err
			}
			p.space()
			if !p.eat("=") {
				return nil, p.errf("= expected")
			}
			p.space()
			v, err := p.dotID()
			if err != nil {
				return nil, err
			}
			m[k] = v
			p.space()
			if !p.eat(",") {
				p.eat(";")
			}
		}
		p.space()
	}
	return m, nil
}

func parseDot(s string) (*diagram, error) {
	d := &diagram{nodes: map[string]node{}}
	p := &parser{s: s}
	p.space()
	if !p.eat("digraph") {
		return nil, p.errf("digraph expected")
	}
	p.space()
	if !p.eat("{") {
		if _, err := p.dotID(); err != nil {
			return nil, err
		}
		p.space()
		if !p.eat("{") {
			return nil, p.errf("{ expected")
		}
	}
	for {
		p.space()
		if p.eat("}") {
			break
		}
		if p.eat(";") {
			continue
		}
		id, err := p.dotID()
		if err != nil {
			return nil, err
		}
		p.space()
		switch {
		case p.eat("="):
			p.space()
			if _, err := p.dotID(); err != nil {
				return nil, err
			}
		case p.eat("->"):
			p.space()
			to, err := p.dotID()
			if err != nil {
				return nil, err
			}
			attrs, err := p.dotAttrs()
			if err != nil {
				return nil, err
			}
			d.edges = append(d.edges, edge{id, to, attrs["label"]})
		default:
			attrs, err := p.dotAttrs()
			if err != nil {
				return nil, err
			}
			if id == "node" || id == "edge" || id == "graph" {
				continue
			}
			if _, ok := d.nodes[id]; ok {
				return nil, p.errf("node %s defined again", id)
			}
			d.nodes[id] = node{attrs["label"]}
		}
	}
	p.space()
	if p.i != len(p.s) {
		return nil, p.errf("text after the graph")
	}
	return d, nil
}

// ---- Mermaid flowcharts in a Markdown fence ----

var shapes = [][2]string{{"([", "])"}, {"[[", "]]"}, {"[(", ")]"}, {"((", "))"}, {"{{", "}}"}, {"(", ")"}, {"[", "]"}, {"{", "}"}}

// text reads a quoted text.
func (p *parser) text() (string, error) {
	if !p.eat(`"`) {
		return "", p.errf("quoted text expected")
	}
	j := strings.IndexByte(p.s[p.i:], '"')
	if j < 0 {
		return "", p.errf("unterminated text")
	}
	s := p.s[p.i : p.i+j]
	if strings.ContainsAny(s, "<>") {
		return "", p.errf("markup in the text")
	}
	p.i += j + 1
	return html.UnescapeString(s), nil
}

// end reads the end of a statement.
func (p *parser) end() error {
	j := p.i
	for p.i < len(p.s) && strings.ContainsRune(" \t;\n", rune(p.s[p.i])) {
		p.i++
	}
	if p.i != len(p.s) && !strings.ContainsAny(p.s[j:p.i], ";\n") {
		return p.errf("end of statement expected")
	}
	return nil
}

func parseMermaid(s string) (*diagram, error) {
	d := &diagram{nodes: map[string]node{}}
	lines := strings.Split(strings.TrimSpace(s), "\n")
	fence := strings.TrimRight(lines[0], "mermaid \t")
	if len(fence) < 3 || strings.Trim(fence, "`") != "" || strings.TrimSpace(lines[0][len(fence):]) != "mermaid" {
		return nil, fmt.Errorf("no mermaid fence in %q", lines[0])
	}
	for i, l := range lines[1:] {
		if t := strings.TrimSpace(l); len(t) >= len(fence) && strings.Trim(t, "`") == "" && i != len(lines)-2 {
			return nil, fmt.Errorf("the fence ends in line %d of %d", i+2, len(lines))
		}
	}
	if strings.TrimSpace(lines[len(lines)-1]) != fence {
		return nil, fmt.Errorf("the fence is not closed")
	}
	p := &parser{s: strings.Join(lines[1:len(lines)-1], "\n")}
	p.space()
	if !p.eat("flowchart ") && !p.eat("graph ") {
		return nil, p.errf("flowchart expected")
	}
	p.space()
	switch dir := p.ident(); dir {
	case "LR", "TD", "TB", "RL", "BT":
	default:
		return nil, p.errf("direction %q", dir)
	}
	if err := p.end(); err != nil {
		return nil, err
	}
	p.space()
	for p.i < len(p.s) {
		id := p.ident()
		if id == "" {
			return nil, p.errf("statement expected")
		}
		if id == "style" || id == "class" || id == "classDef" || id == "linkStyle" {
			j := strings.IndexAny(p.s[p.i:], ";\n")
			if j < 0 {
				j = len(p.s) - p.i
			}
			p.i += j
		} else if p.eat("-->") {
			label := ""
			if p.eat("|") {
				var err error
				if label, err = p.text(); err != nil {
					return nil, err
				}
				if !p.eat("|") {
					return nil, p.errf("| expected")
				}
			}
			p.space()
			to := p.ident()
			if to == "" {
				return nil, p.errf("node expected")
			}
			d.edges = append(d.edges, edge{id, to, label})
		} else {
			var shape *[2]string
			for i := range shapes {
				if p.eat(shapes[i][0]) {
					shape = &shapes[i]
					break
				}
			}
			if shape == nil {
				return nil, p.errf("node shape expected")
			}
			label, err := p.text()
			if err != nil {
				return nil, err
			}
			if !p.eat(shape[1]) {
				return nil, p.errf("%s expected", shape[1])
			}
			if _, ok := d.nodes[id]; ok {
				return nil, p.errf("node %s defined again", id)
			}
			d.nodes[id] = node{label}
		}
		if err := p.end(); err != nil {
			return nil, err
		}
		p.space()
	}
	return d, nil
}

// ---- operators ----

type res struct {
	group   *string
	version *string
	kind    string
	id      string // which resource this is
}

type ctrl struct {
	name    string
	sources []res
	srcType []string
	ops     []string
	target  res
	tgtType string
}

type world struct {
	op    string
	ctrls []ctrl
}

func strp(s string) *string { return &s }

var plainNames = []string{"a", "b", "svc-controller", "pod-watcher", "gw", "x.y", "ab"}
var oddNames = []string{`a "b"`, `a\b`, `back\`, `a|b`, `a;b`, `a-->b`, `<x> & 'y'`, "ünï-ködé", "two\nlines", "]", ")", "}", "v/v1/K", "//View", "/v1/Pod", "%s%d", "#35;", "&lt;", "n1", "graph", "subgraph x", "end"}

func drawRes(t gen.T, op string, odd bool) res {
	kinds := []string{"View", "FooView", "Pod", "Service", "ViewPort", "Gateway"}
	if odd {
		kinds = append(kinds, `K "q"`, `K\`, "K<T>", "a/b")
	}
	kind := gen.Pick(t, "kind", kinds...)
	own := op + ".view.dcontroller.io"
	switch gen.Int(t, 0, 9, "resource") {
	case 0, 1, 2, 3, 4:
		return res{kind: kind, id: "own:" + kind}
	case 5:
		r := res{group: &own, kind: kind, id: "own:" + kind}
		if gen.Bool(t, "version") {
			r.version = strp("v1alpha1")
		}
		return r
	case 6:
		r := res{group: strp("other.view.dcontroller.io"), kind: kind, id: "other:" + kind}
		if gen.Bool(t, "version") {
			r.version = strp("v1alpha1")
		}
		return r
	case 7:
		r := res{group: strp(""), version: strp("v1"), kind: kind, id: "core:" + kind}
		if kind == "Service" {
			r.version = nil
		}
		return r
	case 8:
		return res{group: strp("apps"), kind: kind, id: "apps:" + kind}
	default:
		v := gen.Pick(t, "version", "v1", "v1beta1")
		return res{group: strp("gateway.networking.k8s.io"), version: &v, kind: kind, id: "gw/" + v + ":" + kind}
	}
}

func drawWorld(t gen.T) *world {
	w := &world{op: gen.Pick(t, "operator", "op", "my-operator", "view")}
	odd := gen.Prob(t, 8, "odd names")
	names := append([]string{}, plainNames...)
	if odd {
		names = append(names, oddNames...)
		if gen.Prob(t, 4, "odd operator name") {
			w.op = gen.Pick(t, "odd operator", `o "p"`, `o\`, "o;p", "o\np", "o]")
		}
	}
	used := map[string]bool{}
	// few resources so that the flows meet
	pool := []res{}
	for i, n := 0, gen.Int(t, 1, 5, "pool"); i < n; i++ {
		pool = append(pool, drawRes(t, w.op, odd))
	}
	draw := func() res {
		if gen.Prob(t, 3, "fresh resource") {
			return drawRes(t, w.op, odd)
		}
		return pool[gen.Int(t, 0, len(pool)-1, "resource of the pool")]
	}
	for i, n := 0, gen.Int(t, 0, 6, "controllers"); i < n; i++ {
		name := names[gen.Int(t, 0, len(names)-1, "name")]
		if used[name] {
			continue // names of controllers are unique
		}
		used[name] = true
		c := ctrl{name: name}
		for j, k := 0, gen.Int(t, 1, 3, "sources"); j < k; j++ {
			c.sources = append(c.sources, draw())
			c.srcType = append(c.srcType, gen.Pick(t, "source type", "", "", "Watcher", "Periodic", "OneShot"))
		}
		for j, k := 0, gen.Int(t, 0, 3, "ops"); j < k; j++ {
			c.ops = append(c.ops, gen.Pick(t, "op", "@join", "@select", "@project", "@unwind", "@gather", "@demux", "@mux"))
		}
		c.target = draw()
		c.tgtType = gen.Pick(t, "target type", "", "Updater", "Patcher")
		w.ctrls = append(w.ctrls, c)
	}
	return w
}

func (r res) spec(typ string) map[string]any {
	m := map[string]any{"kind": r.kind}
	if r.group != nil {
		m["apiGroup"] = *r.group
	}
	if r.version != nil {
		m["version"] = *r.version
	}
	if typ != "" {
		m["type"] = typ
	}
	return m
}

func (w *world) spec() map[string]any {
	cs := []any{}
	for _, c := range w.ctrls {
		srcs := []any{}
		for i, s := range c.sources {
			srcs = append(srcs, s.spec(c.srcType[i]))
		}
		ops := []any{}
		for _, o := range c.ops {
			ops = append(ops, map[string]any{o: "$.spec"})
		}
		cs = append(cs, map[string]any{"name": c.name, "sources": srcs, "pipeline": ops, "target": c.target.spec(c.tgtType)})
	}
	return map[string]any{"controllers": cs}
}

func (w *world) object() map[string]any {
	return map[string]any{"apiVersion": "dcontroller.io/v1alpha1", "kind": "Operator", "metadata": map[string]any{"name": w.op}, "spec": w.spec()}
}

func (w *world) operator(c *hx.Case) *opv1a1.Operator {
	b, err := json.Marshal(w.object())
	if err != nil {
		c.Failf("HARNESS: %v", err)
	}
	var op opv1a1.Operator
	if err := json.Unmarshal(b, &op); err != nil {
		c.Failf("HARNESS: %v", err)
	}
	return &op
}

// ---- oracle ----

// alias maps the other names of steps to the names shown.
var alias = map[string]string{"@demux": "@unwind", "@mux": "@gather"}

// isController tells whether a label shows a controller: its name, then its steps in order.
func (k ctrl) isController(label string) bool {
	rest, ok := strings.CutPrefix(label, k.name)
	if !ok || len(k.ops) == 0 {
		return ok && rest == ""
	}
	steps := []string{}
	for _, f := range strings.Fields(strings.TrimPrefix(rest, ":")) {
		if strings.HasPrefix(f, "@") {
			steps = append(steps, strings.Trim(f, ",;"))
		}
	}
	want := []string{}
	for _, o := range k.ops {
		if a, ok := alias[o]; ok {
			o = a
		}
		want = append(want, o)
	}
	return strings.HasPrefix(rest, ":") && fmt.Sprint(steps) == fmt.Sprint(want)
}

type want struct {
	res   res
	flows map[string]int // direction, controller and type of the flow; at most this many
}

func (w *world) want() map[string]*want {
	m := map[string]*want{}
	add := func(r res, f string) {
		x := m[r.id]
		if x == nil {
			x = &want{r, map[string]int{}}
			m[r.id] = x
		}
		x.flows[f]++
	}
	for i, k := range w.ctrls {
		for j, s := range k.sources {
			t := k.srcType[j]
			if t == "" {
				t = "Watcher"
			}
			add(s, fmt.Sprintf("read by %d as %s", i, t))
		}
		t := k.tgtType
		if t == "" {
			t = "Updater"
		}
		add(k.target, fmt.Sprintf("written by %d as %s", i, t))
	}
	return m
}

func (x *want) matches(label string, flows map[string]int) bool {
	if !strings.Contains(label, x.res.kind) {
		return false
	}
	if g := x.res.group; g != nil && !strings.HasPrefix(x.res.id, "own:") && !strings.Contains(label, *g) {
		return false
	}
	if len(flows) != len(x.flows) {
		return false
	}
	for f, n := range flows {
		// sources that differ in their selectors only may be drawn as one flow
		if n > x.flows[f] {
			return false
		}
	}
	return true
}

// check compares a diagram with the operator; it returns what is wrong.
func (w *world) check(d *diagram) error {
	ctrlOf := map[string]int{}
	for i, k := range w.ctrls {
		found := []string{}
		for id, n := range d.nodes {
			if k.isController(n.label) {
				found = append(found, id)
			}
		}
		if len(found) == 0 {
			return fmt.Errorf("controller %q is not shown", k.name)
		}
		// a resource may be called like a controller: resources are no boxes, but the labels
		// alone do not tell; take the one whose flows are those of the controller
		sort.Strings(found)
		if len(found) > 1 {
			best := []string{}
			for _, id := range found {
				in, out := 0, 0
				for _, e := range d.edges {
					if e.to == id {
						in++
					}
					if e.from == id {
						out++
					}
				}
				if in > 0 && out == 1 {
					best = append(best, id)
				}
			}
			if len(best) != 1 {
				return fmt.Errorf("controller %q is shown %d times", k.name, len(found))
			}
			found = best
		}
		if o, ok := ctrlOf[found[0]]; ok {
			return fmt.Errorf("one node shows the controllers %q and %q", w.ctrls[o].name, k.name)
		}
		ctrlOf[found[0]] = i
	}
	flows := map[string]map[string]int{}
	for id := range d.nodes {
		if _, ok := ctrlOf[id]; !ok {
			flows[id] = map[string]int{}
		}
	}
	for _, e := range d.edges {
		for _, id := range []string{e.from, e.to} {
			if _, ok := d.nodes[id]; !ok {
				return fmt.Errorf("a flow %s->%s ends at the unknown node %s", e.from, e.to, id)
			}
		}
		fc, fok := ctrlOf[e.from]
		tc, tok := ctrlOf[e.to]
		switch {
		case fok && !tok:
			flows[e.to][fmt.Sprintf("written by %d as %s", fc, e.label)]++
		case !fok && tok:
			flows[e.from][fmt.Sprintf("read by %d as %s", tc, e.label)]++
		default:
			return fmt.Errorf("a flow from %q to %q does not join a controller with a resource", d.nodes[e.from].label, d.nodes[e.to].label)
		}
	}
	// every node is one of the resources and the other way round
	wants := w.want()
	if len(flows) != len(wants) {
		return fmt.Errorf("%d resources are shown instead of %d: %s", len(flows), len(wants), d.show(flows))
	}
	ids := []string{}
	for id := range flows {
		ids = append(ids, id)
	}
	sort.Strings(ids)
	taken := map[string]string{} // resource -> node
	var augment func(id string, seen map[string]bool) bool
	augment = func(id string, seen map[string]bool) bool {
		for rid, x := range wants {
			if seen[rid] || !x.matches(d.nodes[id].label, flows[id]) {
				continue
			}
			seen[rid] = true
			if o, ok := taken[rid]; !ok || augment(o, seen) {
				taken[rid] = id
				return true
			}
		}
		return false
	}
	for _, id := range ids {
		if !augment(id, map[string]bool{}) {
			return fmt.Errorf("the node %q with the flows %v is no resource of the operator with these flows", d.nodes[id].label, flows[id])
		}
	}
	return nil
}

func (d *diagram) show(flows map[string]map[string]int) string {
	l := []string{}
	for id, f := range flows {
		l = append(l, fmt.Sprintf("%q %v", d.nodes[id].label, f))
	}
	sort.Strings(l)
	return strings.Join(l, "; ")
}

func (w *world) classify(c *hx.Case) {
	readers, writers := map[string]int{}, map[string]int{}
	loop, dup := false, false
	for _, k := range w.ctrls {
		seen := map[string]bool{}
		for j, s := range k.sources {
			f := s.id + k.srcType[j]
			dup = dup || seen[f]
			seen[f] = true
			readers[s.id]++
			loop = loop || s.id == k.target.id
		}
		writers[k.target.id]++
	}
	fan, many, ext, chain := false, false, false, false
	for id, n := range readers {
		fan = fan || n > 1
		ext = ext || writers[id] == 0 && (strings.HasPrefix(id, "own:") || strings.HasPrefix(id, "other:"))
		chain = chain || writers[id] > 0
	}
	for _, n := range writers {
		many = many || n > 1
	}
	c.ClassIf(len(w.ctrls) == 0, "no controllers")
	c.ClassIf(fan, "several readers")
	c.ClassIf(many, "several writers")
	c.ClassIf(ext, "view from outside")
	c.ClassIf(chain, "chain")
	c.ClassIf(loop, "controller reads its target")
	c.ClassIf(dup, "same source twice")
	c.NonTrivial(len(w.ctrls) > 1 && chain)
	b, _ := json.Marshal(w.object())
	c.Key("%s", b)
	c.Step("%s", b)
}

func TestDiagrams(t *testing.T) {
	hx.Check(t, "operators of 0-6 controllers over few resources (views of the operator and of others, native ones; several readers and writers; odd characters in names): the Mermaid and DOT texts are parsed and must show each controller and resource exactly once and exactly the flows; the same text must come out again; non-trivial: at least two controllers and a resource both written and read", hx.Scale(6000, 300000), func(c *hx.Case) {
		w := drawWorld(c.T)
		w.classify(c)
		for _, f := range []string{"dot", "mermaid"} {
			render := func() string {
				var s string
				c.NoPanic("rendering "+f, func() {
					g := visualize.BuildGraph(w.operator(c))
					if f == "dot" {
						s = (&visualize.DotGenerator{}).Generate(g)
					} else {
						s = (&visualize.MermaidGenerator{}).Generate(g)
					}
				})
				return s
			}
			s := render()
			checkText(c, w, f, s)
			if s2 := render(); s2 != s {
				c.Failf("%s: not the same text again:\n%s\n%s", f, s, s2)
			}
		}
	})
}

func checkText(c *hx.Case, w *world, f, s string) {
	parse := parseDot
	if f == "mermaid" {
		parse = parseMermaid
	}
	d, err := parse(s)
	if err != nil {
		c.Failf("%s: malformed: %v\n%s", f, err, s)
	}
	if err := w.check(d); err != nil {
		c.Failf("%s: %v\n%s", f, err, s)
	}
}

func build(t *testing.T) {
	dctl = filepath.Join(scratch, "dctl")
	cmd := exec.Command("go", "build", "-o", dctl, "github.com/l7mp/dcontroller")
	if d := os.Getenv("VERIF_DIR"); d != "" {
		cmd.Dir = filepath.Join(d, "harness")
	}
	if out, err := cmd.CombinedOutput(); err != nil {
		t.Fatalf("HARNESS: build: %v\n%s", err, out)
	}
}

// TestProgram runs dctl visualize on files with Operator resources and bare specifications.
func TestProgram(t *testing.T) {
	build(t)
	n := 0
	hx.Check(t, "the same with the program dctl visualize on a file with an Operator resource or a bare specification, written as YAML or JSON, to the standard output or to a file; unknown formats and broken files are refused and leave no output file; non-trivial: as above", hx.Scale(160, 6000), func(c *hx.Case) {
		w := drawWorld(c.T)
		n++
		dir := filepath.Join(scratch, strconv.Itoa(n))
		if err := os.Mkdir(dir, 0o755); err != nil {
			c.Failf("HARNESS: %v", err)
		}
		defer os.RemoveAll(dir)
		bare := gen.Prob(c.T, 5, "bare specification")
		name := "f.yaml"
		obj := w.object()
		if bare {
			if strings.ContainsAny(w.op, "/") {
				c.Failf("HARNESS: operator name")
			}
			obj = w.spec()
			// the file gives the name
			name = w.op + gen.Pick(c.T, "extension", ".yaml", ".yml")
		}
		w.classify(c)
		c.ClassIf(bare, "bare specification")
		b, _ := json.Marshal(obj)
		if gen.Bool(c.T, "yaml") {
			b, _ = yaml.JSONToYAML(b)
		}
		file := filepath.Join(dir, name)
		broken := gen.Prob(c.T, 2, "broken file")
		if broken {
			b = []byte(gen.Pick(c.T, "broken", "controllers: 12", "kind: Operator\nspec: [1", "controllers:\n- name: [1]", "kind: Operator\nspec:\n  controllers:\n  - name: a\n    pipeline:\n    - '@nosuch': 1\n"))
		}
		if err := os.WriteFile(file, b, 0o644); err != nil {
			c.Failf("HARNESS: %v", err)
		}
		format := gen.Pick(c.T, "format", "", "mermaid", "dot", "graphviz", "DOT", "svg")
		args := []string{"visualize", file}
		if format != "" {
			args = append(args, gen.Pick(c.T, "flag", "--format", "-f"), format)
		}
		outFile := ""
		if gen.Bool(c.T, "output file") {
			outFile = filepath.Join(dir, "out.txt")
			args = append(args, gen.Pick(c.T, "flag", "--output", "-o"), outFile)
		}
		c.Step("dctl %v", args)
		cmd := exec.Command(dctl, args...)
		cmd.Dir = dir
		var stderr strings.Builder
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		refuse := broken || format == "svg"
		c.ClassIf(refuse, "refused")
		if refuse {
			if err == nil {
				c.Failf("accepted: %s", out)
			}
			if _, err := os.Stat(outFile); outFile != "" && err == nil {
				c.Failf("refused, but an output file was written")
			}
			return
		}
		if err != nil {
			c.Failf("refused: %v %s", err, stderr.String())
		}
		if outFile != "" {
			if len(out) > 0 {
				c.Failf("output besides the file: %q", out)
			}
			if out, err = os.ReadFile(outFile); err != nil {
				c.Failf("output file: %v", err)
			}
		}
		f := "dot"
		if format == "" || format == "mermaid" {
			f = "mermaid"
		}
		checkText(c, w, f, string(out))
	})
}
