// Package prun runs a generated pipeline along a generated history next to the reference model.
package prun

import (
	"dcverif/gen"
	"dcverif/hx"
	"dcverif/ref"

	"github.com/l7mp/dcontroller/pkg/object"
	"github.com/l7mp/dcontroller/pkg/pipeline"
	"k8s.io/apimachinery/pkg/runtime/schema"
)

// Target is the type of the target view.
var Target = gen.GVK("Target")

// Sources converts kinds to types.
func Sources(kinds []string) []schema.GroupVersionKind {
	r := []schema.GroupVersionKind{}
	for _, k := range kinds {
		r = append(r, gen.GVK(k))
	}
	return r
}

// New builds a pipeline; it fails the case if it is rejected.
func New(c *hx.Case, p gen.Pipe) pipeline.Evaluator {
	conf, err := gen.Pipeline(p.Stages)
	if err != nil {
		c.Failf("pipeline rejected: %v", err)
	}
	ev, err := pipeline.New(gen.Operator, Target, Sources(p.Kinds), conf, hx.Log())
	if err != nil {
		c.Failf("pipeline rejected: %v", err)
	}
	return ev
}

// Run is a pipeline with its model.
type Run struct {
	C    *hx.Case
	P    gen.Pipe
	Ev   pipeline.Evaluator
	W    *gen.World
	T    gen.Target
	Want gen.Want
}

// Start starts a run.
func Start(c *hx.Case, p gen.Pipe) *Run {
	c.Step("pipeline %s over %v", ref.Canon(p.Stages), p.Kinds)
	w := gen.NewWorld(p.Kinds, p.ListMaps)
	w.Cluster, w.Rich = p.Cluster, true
	return &Run{C: c, P: p, Ev: New(c, p), W: w, T: gen.Target{}, Want: gen.Want{}}
}

// Required is the target required by the current sources of the model.
func (r *Run) Required() gen.Want {
	bag, err := ref.RunPipeline(r.P.Stages, r.W.Sources())
	if err != nil {
		r.C.Fatalf("harness: reference evaluation failed: %v", err)
	}
	return gen.Expect(bag, Target)
}

// Log writes deltas to the trace.
func (r *Run) Log(ds []object.Delta) {
	for _, d := range ds {
		r.C.Step("  -> %s %s", d.Type, ref.Canon(d.Object.Object))
	}
}

// Eval feeds the event, which must be accepted, and applies the deltas to the target.
func (r *Run) Eval(e gen.Event) []object.Delta {
	r.C.Step("%s", e)
	ds, err := r.Ev.Evaluate(e.Delta())
	if err != nil {
		r.C.Failf("evaluation failed: %v", err)
	}
	r.Log(ds)
	if m := r.T.Apply(ds); m != "" {
		r.C.Failf("%s", m)
	}
	return ds
}

// Check compares the target with the required one.
func (r *Run) Check() {
	r.Want = r.Required()
	if d := gen.Diff(r.Want, r.T, r.P.Gathered); d != "" {
		r.C.Failf("%s", d)
	}
}
