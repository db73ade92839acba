// Package hx is the small framework shared by all property checks: it drives
// rapid with a pinned seed, counts cases, collects samples and records failures
// for the runner (/verif/run.py).
package hx

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/go-logr/logr"
	"pgregory.net/rapid"
)

// Stats is what one test of a property reports.
type Stats struct {
	Test        string         `json:"test"`
	Rule        string         `json:"rule"`
	Evaluations int            `json:"evaluations"`
	Distinct    int            `json:"distinct_nontrivial"`
	Excluded    int            `json:"excluded_known,omitempty"`
	Classes     map[string]int `json:"classes,omitempty"`
	Samples     []Sample       `json:"samples,omitempty"`
	WallS       float64        `json:"wall_s"`
	Failed      bool           `json:"failed"`
	Failure     string         `json:"failure,omitempty"`
	Known       []string       `json:"known,omitempty"`
	Hashes      []string       `json:"hashes,omitempty"`
}

// Sample is one generated case, written out.
type Sample struct {
	hash string
	Case string `json:"case"`
}

const maxSamples = 3

// Case is the context of a single generated case.
type Case struct {
	*rapid.T
	r          *runner
	key        string
	nontrivial bool
	trace      []string
}

type runner struct {
	mu      sync.Mutex
	stats   Stats
	seen    map[string]struct{}
	failing bool
	last    []string
}

// Thorough tells whether the thorough tier runs.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Seed returns the seed of the run (never 0).
func Seed() uint64 {
	s, err := strconv.ParseUint(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil || s == 0 {
		return 7700777
	}
	return s
}

// Scale returns the number of cases for the current tier.
func Scale(quick, thorough int) int {
	n := quick
	if Thorough() {
		n = thorough
	}
	return scaled((n + Shards() - 1) / Shards())
}

// Whole returns the number of cases of a test that runs in one process only.
func Whole(quick, thorough int) int {
	if Thorough() {
		return scaled(thorough)
	}
	return scaled(quick)
}

func scaled(n int) int {
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && v > 0 {
		n = int(float64(n)*v) + 1
	}
	return n
}

// Shards is the number of processes among which the cases of a run are divided.
func Shards() int {
	if n, err := strconv.Atoi(os.Getenv("VERIF_SHARDS")); err == nil && n > 1 {
		return n
	}
	return 1
}

// FirstShard tells whether this process runs the deterministic cases.
func FirstShard() bool {
	v := os.Getenv("VERIF_SHARD")
	return v == "" || v == "0"
}

// Key identifies the case for the purpose of counting distinct cases.
func (c *Case) Key(format string, a ...any) {
	if len(a) == 0 {
		c.key = format
		return
	}
	c.key = fmt.Sprintf(format, a...)
}

// NonTrivial marks the case as non-trivial.
func (c *Case) NonTrivial(b bool) {
	if b {
		c.nontrivial = true
	}
}

// Class counts a case class.
func (c *Case) Class(name string) {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	if !c.r.failing {
		c.r.stats.Classes[name]++
	}
}

// ClassIf counts a class if the condition holds.
func (c *Case) ClassIf(cond bool, name string) {
	if cond {
		c.Class(name)
	}
}

// Excluded counts a case part excluded because of a known finding.
func (c *Case) Excluded() {
	c.r.mu.Lock()
	defer c.r.mu.Unlock()
	c.r.stats.Excluded++
}

// Step appends to the trace of the case: it is part of the reproduction and the sample.
func (c *Case) Step(format string, a ...any) {
	c.trace = append(c.trace, fmt.Sprintf(format, a...))
}

// Failf fails the case.
func (c *Case) Failf(format string, a ...any) {
	c.Helper()
	c.Fatalf("%s\n  case:\n    %s", fmt.Sprintf(format, a...), strings.Join(c.trace, "\n    "))
}

// Trace returns the trace so far.
func (c *Case) Trace() []string { return c.trace }

// NoPanic runs f and fails the case if f panics.
func (c *Case) NoPanic(what string, f func()) {
	c.Helper()
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(runtime.Error); !ok && isRapidPanic(r) {
				panic(r)
			}
			c.Failf("%s panicked: %v\n%s", what, r, trimStack(debug.Stack()))
		}
	}()
	f()
}

func isRapidPanic(r any) bool {
	return strings.HasPrefix(fmt.Sprintf("%T", r), "rapid.")
}

func trimStack(b []byte) string {
	lines := strings.Split(string(b), "\n")
	out := []string{}
	for _, l := range lines {
		if strings.Contains(l, "dcontroller/") || strings.Contains(l, "/repo/") {
			out = append(out, l)
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

// MustReturn fails the case if f does not return within a generous limit (a deadlock).
func (c *Case) MustReturn(what string, limit time.Duration, f func()) {
	c.Helper()
	done := make(chan any, 1)
	go func() {
		defer func() { done <- recover() }()
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			c.Failf("%s panicked: %v", what, r)
		}
	case <-time.After(limit):
		c.Failf("%s did not return within %s", what, limit)
	}
}

// Check runs a property over generated cases. rule says how cases are made and what
// makes one non-trivial.
func Check(t *testing.T, rule string, cases int, f func(c *Case)) {
	t.Helper()
	r := &runner{seen: map[string]struct{}{}}
	r.stats = Stats{Test: t.Name(), Rule: rule, Classes: map[string]int{}}
	start := time.Now()
	must(flag.Set("rapid.checks", strconv.Itoa(cases)))
	must(flag.Set("rapid.seed", strconv.FormatUint(Seed(), 10)))
	if os.Getenv("VERIF_REPLAY") == "" {
		must(flag.Set("rapid.shrinktime", "45s"))
	}
	defer func() {
		r.stats.WallS = time.Since(start).Seconds()
		r.stats.Failed = t.Failed()
		r.stats.Distinct = len(r.seen)
		if Shards() > 1 {
			for h := range r.seen {
				r.stats.Hashes = append(r.stats.Hashes, h)
			}
		}
		if t.Failed() {
			r.stats.Failure = strings.Join(r.last, "\n")
		}
		for k, v := range r.stats.Classes {
			if v == 0 {
				delete(r.stats.Classes, k)
			}
		}
		writeStats(r.stats)
	}()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{T: rt, r: r}
		ok := false
		defer func() {
			if !ok {
				if e := recover(); e != nil {
					// rapid signals skipped cases by panicking too
					if !strings.Contains(fmt.Sprintf("%T", e), "invalidData") {
						r.mu.Lock()
						r.failing = true
						r.last = append([]string{fmt.Sprintf("%v", e)}, c.trace...)
						r.mu.Unlock()
					}
					panic(e)
				}
			}
			if rt.Failed() {
				r.mu.Lock()
				r.failing = true
				r.last = c.trace
				r.mu.Unlock()
				return
			}
			r.done(c)
		}()
		f(c)
		ok = true
	})
}

func (r *runner) done(c *Case) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.failing {
		return
	}
	r.stats.Evaluations++
	if !c.nontrivial {
		return
	}
	key := c.key
	if key == "" {
		key = strings.Join(c.trace, "\n")
	}
	h := sha256.Sum256([]byte(key))
	hs := hex.EncodeToString(h[:8])
	if _, ok := r.seen[hs]; ok {
		return
	}
	r.seen[hs] = struct{}{}
	// keep the cases with the smallest hashes: a deterministic pseudo-random choice
	text := strings.Join(c.trace, "\n")
	if text == "" {
		text = key
	}
	if len(text) > 3000 {
		text = text[:3000] + "..."
	}
	r.stats.Samples = append(r.stats.Samples, Sample{hash: hs, Case: text})
	sort.Slice(r.stats.Samples, func(i, j int) bool { return r.stats.Samples[i].hash < r.stats.Samples[j].hash })
	if len(r.stats.Samples) > maxSamples {
		r.stats.Samples = r.stats.Samples[:maxSamples]
	}
}

func must(err error) {
	if err != nil {
		panic(err)
	}
}

func writeStats(s Stats) {
	dir := os.Getenv("VERIF_OUT")
	if dir == "" {
		b, _ := json.MarshalIndent(s, "", " ")
		fmt.Fprintln(os.Stderr, string(b))
		return
	}
	b, err := json.Marshal(s)
	must(err)
	name := strings.NewReplacer("/", "_", " ", "_").Replace(s.Test)
	must(os.WriteFile(filepath.Join(dir, name+".json"), b, 0o644))
}

// Known runs the probe of a finding listed in /verif/known_findings.txt. A probe returns a
// description of what fails, or "" when the behaviour is right. If the finding is listed and
// still fails it is reported as known; if it fails without being listed it is a violation.
func Known(t *testing.T, id, what string, probe func() string) {
	t.Helper()
	if !FirstShard() {
		return
	}
	s := Stats{Test: t.Name() + "/" + id, Rule: "probe of the recorded finding " + id}
	got := probe()
	if got != "" {
		if listed(id) {
			s.Known = []string{what + ": " + got}
		} else {
			s.Failed, s.Failure = true, what+": "+got
			t.Errorf("%s: %s: %s", id, what, got)
		}
	}
	writeStats(s)
}

// Regress runs a deterministic regression case (a shrunk failure of a defect that has been
// repaired). The probe returns "" if all is well.
func Regress(t *testing.T, name string, probe func() string) {
	t.Helper()
	if !FirstShard() {
		return
	}
	s := Stats{Test: t.Name() + "/" + name, Rule: "regression case " + name, Evaluations: 1}
	func() {
		defer func() {
			if r := recover(); r != nil {
				s.Failed, s.Failure = true, fmt.Sprintf("%s: panic: %v\n%s", name, r, trimStack(debug.Stack()))
			}
		}()
		if got := probe(); got != "" {
			s.Failed, s.Failure = true, name+": "+got
		}
	}()
	if s.Failed {
		t.Errorf("regression %s", s.Failure)
	}
	writeStats(s)
}

// IsKnown tells whether a finding is listed.
func IsKnown(id string) bool { return listed(id) }

var (
	knownOnce sync.Once
	known     map[string]bool
)

func listed(id string) bool {
	knownOnce.Do(func() {
		known = map[string]bool{}
		f := os.Getenv("VERIF_KNOWN")
		if f == "" {
			f = "/verif/known_findings.txt"
		}
		b, err := os.ReadFile(f)
		if err != nil {
			return
		}
		for _, l := range strings.Split(string(b), "\n") {
			if strings.HasPrefix(l, "known:") {
				for _, w := range strings.Fields(l) {
					if strings.HasPrefix(w, "id=") {
						known[strings.TrimPrefix(w, "id=")] = true
					}
				}
			}
		}
	})
	return known[id]
}

// J renders a value as compact JSON (map keys sorted).
func J(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return fmt.Sprintf("%#v", v)
	}
	return string(b)
}

// Log is the silent logger.
func Log() logr.Logger { return logr.Discard() }

// Eventually polls cond until it returns "" or the limit passes; returns the last complaint.
func Eventually(limit time.Duration, cond func() string) string {
	deadline := time.Now().Add(limit)
	d := time.Millisecond
	last := ""
	for {
		last = cond()
		if last == "" {
			return ""
		}
		if time.Now().After(deadline) {
			return last
		}
		time.Sleep(d)
		if d < 50*time.Millisecond {
			d *= 2
		}
	}
}
