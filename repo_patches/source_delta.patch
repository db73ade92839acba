From 31f1cc37a2f0fac334c43b298959ce4432ce39a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:09 +0000
Subject: [PATCH 01/57] fix: accept the empty string literal and the empty map
 key in expressions

Parsing an expression that contains an empty string failed, and an empty
object key crashed the parser.
---
 pkg/expression/marshaler.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index d3be337..1224210 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -4,6 +4,7 @@ import (
 	"encoding/json"
 	"fmt"
 	"reflect"
+	"strings"
 )
 
 // UnmarshalJSON de-serializes an expression from JSON.
@@ -32,7 +33,7 @@ func (e *Expression) UnmarshalJSON(b []byte) error {
 
 	// try to unmarshal as a string terminal expression
 	sv := ""
-	if err := json.Unmarshal(b, &sv); err == nil && sv != "" {
+	if err := json.Unmarshal(b, &sv); err == nil {
 		*e = Expression{Op: "@string", Literal: sv}
 		return nil
 	}
@@ -54,7 +55,7 @@ func (e *Expression) UnmarshalJSON(b []byte) error {
 				op = k
 				break
 			}
-			if string(op[0]) == "@" {
+			if strings.HasPrefix(op, "@") {
 				exp := cv[op]
 				*e = Expression{Op: op, Arg: &exp}
 				return nil
-- 
2.43.0


From dbf87a3f7d447923d8b378f0ad695d0bb556501e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:11 +0000
Subject: [PATCH 02/57] fix: retract the version of a deleted object that the
 pipeline has seen

---
 pkg/pipeline/zset_adaptor.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 3beb083..57c3bd5 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -87,7 +87,9 @@ func (p *Pipeline) ConvertDeltaToZSet(delta object.Delta) (*dbsp.DocumentZSet, e
 					delta.Type, ObjectKey(deltaObj)))
 		}
 
-		if err := zset.AddDocumentMutate(deltaObj.UnstructuredContent(), -1); err != nil {
+		// retract the version seen by the pipeline: the final state of the deleted object may
+		// contain changes that have never been delivered
+		if err := zset.AddDocumentMutate(old.UnstructuredContent(), -1); err != nil {
 			return nil, NewPipelineError(
 				fmt.Errorf("processing event %q: could not add object %s to zset: %w",
 					delta.Type, ObjectKey(deltaObj), err))
-- 
2.43.0


From 88c32c60db30a2d7db8c083f01d31f7156eff1c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:24:21 +0000
Subject: [PATCH 03/57] fix: keep a target object as long as the pipeline
 yields a document for it

When several documents mapped to the same target object, deleting one of them
removed the target object even though others still produced it.
---
 pkg/dbsp/zset.go             |   8 +--
 pkg/pipeline/pipeline.go     |   6 +++
 pkg/pipeline/zset_adaptor.go | 100 ++++++++++++++++++++++++++++++++++-
 3 files changed, 110 insertions(+), 4 deletions(-)

diff --git a/pkg/dbsp/zset.go b/pkg/dbsp/zset.go
index 6efb0e1..4601967 100644
--- a/pkg/dbsp/zset.go
+++ b/pkg/dbsp/zset.go
@@ -2,6 +2,8 @@ package dbsp
 
 import (
 	"fmt"
+	"maps"
+	"slices"
 )
 
 // DocumentZSet implements Z-sets for atomic documents.  Documents are treated as opaque units - no
@@ -187,14 +189,14 @@ type DocumentEntry struct {
 	Multiplicity int
 }
 
-// List returns all documents with their multiplicities (including negative ones).
+// List returns all documents with their multiplicities (including negative ones), in a stable order.
 func (dz *DocumentZSet) List() ([]DocumentEntry, error) {
 	result := make([]DocumentEntry, 0, len(dz.counts))
 
-	for key, mult := range dz.counts {
+	for _, key := range slices.Sorted(maps.Keys(dz.counts)) {
 		result = append(result, DocumentEntry{
 			Document:     DeepCopyDocument(dz.docs[key]),
-			Multiplicity: mult,
+			Multiplicity: dz.counts[key],
 		})
 	}
 
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index d8d7ff0..56ef56d 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -66,6 +66,7 @@ type Pipeline struct {
 	sourceCache      map[schema.GroupVersionKind]*cache.Store
 	target           schema.GroupVersionKind
 	targetCache      *cache.Store
+	outputs          map[string]*dbsp.DocumentZSet // Pipeline output per target key
 	snapshotGraph    *dbsp.ChainGraph
 	snapshotExecutor *dbsp.SnapshotExecutor
 	mu               sync.Mutex // Protects against concurrent Evaluate/Sync calls
@@ -91,6 +92,7 @@ func New(operator string, target schema.GroupVersionKind, sources []schema.Group
 		sourceCache: make(map[schema.GroupVersionKind]*cache.Store),
 		target:      target,
 		targetCache: cache.NewStore(),
+		outputs:     make(map[string]*dbsp.DocumentZSet),
 		log:         log,
 	}
 
@@ -222,6 +224,10 @@ func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 		return nil, NewPipelineError(fmt.Errorf("failed to convert DBSP zset to delta: %w", err))
 	}
 
+	if err := p.trackOutput(res); err != nil {
+		return nil, NewPipelineError(fmt.Errorf("failed to track pipeline output: %w", err))
+	}
+
 	deltas, err := p.Reconcile(rawDeltas)
 	if err != nil {
 		return nil, NewPipelineError(fmt.Errorf("failed to update target cache from delta: %w", err))
diff --git a/pkg/pipeline/zset_adaptor.go b/pkg/pipeline/zset_adaptor.go
index 57c3bd5..441afb0 100644
--- a/pkg/pipeline/zset_adaptor.go
+++ b/pkg/pipeline/zset_adaptor.go
@@ -3,7 +3,9 @@ package pipeline
 import (
 	"fmt"
 	"reflect"
+	"slices"
 
+	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
@@ -220,6 +222,7 @@ func (p *Pipeline) ConvertZSetToDelta(zset *dbsp.DocumentZSet, target schema.Gro
 //	| Create new object     |  ✓   |    ✗    |     false     | Upsert |
 //	| Update existing       |  ✓   |    ✗    |     true      | Upsert |
 //	| Delete existing       |  ✗   |    ✓    |     true      | Delete |
+//	| Delete one of several |  ✗   |    ✓    |     true      | Upsert |
 //	| Delete non-existent   |  ✗   |    ✓    |     false     | no-op  |
 //	| Update (delete+add)   |  ✓   |    ✓    |     true      | Upsert |
 //	| Transient (add+delete)|  ✓   |    ✓    |     false     | no-op  |
@@ -228,6 +231,8 @@ func (p *Pipeline) ConvertZSetToDelta(zset *dbsp.DocumentZSet, target schema.Gro
 //
 //   - Multiple adds for the same key: uses the last one (logs warning at V(1))
 //   - Multiple deletes for the same key: uses the first one (all should be equivalent)
+//   - Several documents mapping to the same key: deleting some of them keeps the object, with the
+//     content of one of the remaining documents (no delta is emitted if this is what it has)
 //   - Dynamic fields (@now, etc.): handled correctly since we never compare document content
 //   - @gather group changes: correctly detected as updates via existedBefore=true
 //   - @unwind/@gather transients: correctly suppressed via existedBefore=false
@@ -280,7 +285,29 @@ func (p *Pipeline) Reconcile(ds []object.Delta) ([]object.Delta, error) {
 			deltaCache[key] = object.Delta{Object: d.Object, Type: object.Upserted}
 
 		case !hasAdds && hasDeletes:
-			// Pure delete: only delete if object existed
+			// Pure delete: keep the object if there are other documents mapping to it
+			remaining, err := p.remainingOutput(key)
+			if err != nil {
+				return nil, err
+			}
+			if len(remaining) > 0 {
+				obj, exists, err := p.targetCache.Get(remaining[0])
+				if err != nil {
+					return nil, err
+				}
+				if exists && slices.ContainsFunc(remaining, func(o object.Object) bool {
+					return object.DeepEqual(obj, o)
+				}) {
+					continue
+				}
+				if err := p.targetCache.Add(remaining[0]); err != nil {
+					return nil, err
+				}
+				deltaCache[key] = object.Delta{Object: remaining[0], Type: object.Upserted}
+				continue
+			}
+
+			// No document left: only delete if object existed
 			if ops.existedBefore {
 				d := ops.deletes[0]
 				if err := p.targetCache.Delete(d.Object); err != nil {
@@ -322,6 +349,77 @@ func (p *Pipeline) Reconcile(ds []object.Delta) ([]object.Delta, error) {
 	return res, nil
 }
 
+// trackOutput adds a z-set delta produced by the executor to the documents recorded for each target
+// object. This is needed because several documents may map to the same target object.
+func (p *Pipeline) trackOutput(zset *dbsp.DocumentZSet) error {
+	entries, err := zset.List()
+	if err != nil {
+		return err
+	}
+
+	added := map[string]*dbsp.DocumentZSet{}
+	for _, entry := range entries {
+		key := documentKey(entry.Document)
+		if p.outputs[key] == nil {
+			p.outputs[key] = dbsp.NewDocumentZSet()
+		}
+		if added[key] == nil {
+			added[key] = dbsp.NewDocumentZSet()
+		}
+		if err := p.outputs[key].AddDocumentMutate(entry.Document, entry.Multiplicity); err != nil {
+			return err
+		}
+		if entry.Multiplicity > 0 {
+			if err := added[key].AddDocumentMutate(entry.Document, entry.Multiplicity); err != nil {
+				return err
+			}
+		}
+	}
+
+	// Documents with dynamic fields (@now, etc.) may be retracted with a different content: rely
+	// on the document count only to find out whether there is anything left.
+	for key, batch := range added {
+		output := p.outputs[key]
+		switch count := 2*output.Size() - output.TotalSize(); {
+		case count <= 0:
+			delete(p.outputs, key)
+		case count == batch.Size():
+			p.outputs[key] = batch
+		}
+	}
+
+	return nil
+}
+
+// remainingOutput returns the target objects for the documents recorded for a target key.
+func (p *Pipeline) remainingOutput(key string) ([]object.Object, error) {
+	zset, ok := p.outputs[key]
+	if !ok {
+		return nil, nil
+	}
+
+	ds, err := p.ConvertZSetToDelta(zset, p.target)
+	if err != nil {
+		return nil, err
+	}
+
+	ret := []object.Object{}
+	for _, d := range ds {
+		if d.Type == object.Added {
+			ret = append(ret, d.Object)
+		}
+	}
+
+	return ret, nil
+}
+
+// documentKey returns the key of the target object a document maps to.
+func documentKey(doc dbsp.Document) string {
+	namespace, _, _ := unstructured.NestedString(doc, "metadata", "namespace") //nolint:errcheck
+	name, _, _ := unstructured.NestedString(doc, "metadata", "name")           //nolint:errcheck
+	return client.ObjectKey{Namespace: namespace, Name: name}.String()
+}
+
 // *****************************
 // OLD IMPLEMENTATION
 // *****************************
-- 
2.43.0


From c45f3136079f697202d7774da28ca11fb57a8f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:33 +0000
Subject: [PATCH 04/57] fix: choose the representative document of a gathered
 group deterministically

The representative was picked in random map order, so that groups unaffected by
an event could change their name and content.
---
 pkg/dbsp/op_nonlinear.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/dbsp/op_nonlinear.go b/pkg/dbsp/op_nonlinear.go
index c64234f..cc01e87 100644
--- a/pkg/dbsp/op_nonlinear.go
+++ b/pkg/dbsp/op_nonlinear.go
@@ -3,6 +3,7 @@ package dbsp
 import (
 	"cmp"
 	"fmt"
+	"maps"
 	"slices"
 )
 
@@ -37,10 +38,12 @@ func (op *GatherOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 
 	input := inputs[0]
 
-	// Step 1: Group documents by key, preserving one representative document per group
+	// Step 1: Group documents by key, preserving one representative document per group. The
+	// documents are visited in a fixed order so that the representative does not change randomly.
 	groups := make(map[string]*GroupData)
 
-	for key, multiplicity := range input.counts {
+	for _, key := range slices.Sorted(maps.Keys(input.counts)) {
+		multiplicity := input.counts[key]
 		doc := input.docs[key]
 
 		// Extract key and value
-- 
2.43.0


From ab562dc8fe8e3ed8dbe35c252cea558e12774466 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:35 +0000
Subject: [PATCH 05/57] fix: reset n-ary joins when an executor is reset

---
 pkg/dbsp/executor.go    | 2 ++
 pkg/dbsp/op_bilinear.go | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/pkg/dbsp/executor.go b/pkg/dbsp/executor.go
index 795076e..63e09b3 100644
--- a/pkg/dbsp/executor.go
+++ b/pkg/dbsp/executor.go
@@ -115,6 +115,8 @@ func (e *Executor) resetOperator(op Operator) {
 		o.Reset()
 	case *DelayOp:
 		o.Reset()
+	case *IncrementalJoinOp:
+		o.Reset()
 	case *IncrementalBinaryJoinOp:
 		o.Reset()
 		// Note: Non-linear operators (GatherOp) don't need Reset() - they are lifted with
diff --git a/pkg/dbsp/op_bilinear.go b/pkg/dbsp/op_bilinear.go
index 8dd36d8..ffcf31e 100644
--- a/pkg/dbsp/op_bilinear.go
+++ b/pkg/dbsp/op_bilinear.go
@@ -99,6 +99,11 @@ func (op *IncrementalJoinOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, er
 	return result, nil
 }
 
+// Reset state (useful for restarting computation).
+func (op *IncrementalJoinOp) Reset() {
+	op.prevStates = make([]*DocumentZSet, op.n)
+}
+
 func (op *IncrementalJoinOp) computeTerm(inputs []*DocumentZSet, mask int) (*DocumentZSet, error) {
 	// Create the input combination for this term
 	termInputs := make([]*DocumentZSet, op.n)
-- 
2.43.0


From 97d26039292652e7c90aea859160cfcb2d27f383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:28 +0000
Subject: [PATCH 06/57] fix: support state-of-the-world reconciliation of
 pipelines with unwind or gather

Sync failed for every pipeline containing an @unwind or a @gather op.
---
 pkg/dbsp/graph_converter.go |  4 ++--
 pkg/pipeline/pipeline.go    | 37 ++++++++++++++++++-------------------
 2 files changed, 20 insertions(+), 21 deletions(-)

diff --git a/pkg/dbsp/graph_converter.go b/pkg/dbsp/graph_converter.go
index 2ae690c..7245471 100644
--- a/pkg/dbsp/graph_converter.go
+++ b/pkg/dbsp/graph_converter.go
@@ -97,7 +97,7 @@ func convertToIncrementalJoin(op Operator) (Operator, error) {
 func convertToSnapshotOperator(op Operator) (Operator, error) {
 	switch op.(type) {
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
@@ -130,7 +130,7 @@ func convertToIncrementalOperator(op Operator) (Operator, error) {
 		return op, nil
 
 	// Linear operators are the same for snapshot and incremental.
-	case *ProjectionOp, *SelectionOp, *DistinctOp:
+	case *ProjectionOp, *SelectionOp, *UnwindOp, *DistinctOp:
 		return op, nil
 
 	// Fused operators are also the same.
diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index 56ef56d..e5daf3d 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -154,6 +154,18 @@ func New(operator string, target schema.GroupVersionKind, sources []schema.Group
 
 	p.log.V(2).Info("pipeline initialization ready", "num-inputs", len(sources), "graph", p.graph.String())
 
+	// Create the snapshot executor for state-of-the-world reconciliation. This must happen
+	// before the graph is optimized: lifted operators have no snapshot equivalent.
+	snapshotGraph, err := dbsp.ToSnapshotGraph(p.graph)
+	if err != nil {
+		return nil, NewPipelineError(fmt.Errorf("failed to convert pipeline to snapshot mode: %w", err))
+	}
+	snapshotExecutor, err := dbsp.NewSnapshotExecutor(snapshotGraph, p.log)
+	if err != nil {
+		return nil, NewPipelineError(fmt.Errorf("failed to create snapshot executor: %w", err))
+	}
+	p.snapshotGraph, p.snapshotExecutor = snapshotGraph, snapshotExecutor
+
 	// Optimize
 	if err := p.rewriter.Optimize(p.graph); err != nil {
 		return nil, NewPipelineError(fmt.Errorf("failed to optimize pipeline: %w", err))
@@ -242,9 +254,7 @@ func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 // Sync performs state-of-the-world reconciliation by computing the delta needed to bring the
 // target state up to date with the current source state.
 //
-// This is used for periodic sources that need to re-render the entire target state periodically.
-// On first call, it converts the incremental graph to a snapshot graph and caches both the graph
-// and executor. On subsequent calls, it:
+// This is used for periodic sources that need to re-render the entire target state periodically:
 //  1. Converts source cache to ZSet (current input state)
 //  2. Runs snapshot executor to compute required target state
 //  3. Subtracts current target cache from required state to get delta
@@ -254,22 +264,6 @@ func (p *Pipeline) Sync() ([]object.Delta, error) {
 	p.mu.Lock()
 	defer p.mu.Unlock()
 
-	// On first run, convert incremental graph to snapshot graph and create executor.
-	if p.snapshotGraph == nil {
-		var err error
-		p.snapshotGraph, err = dbsp.ToSnapshotGraph(p.graph)
-		if err != nil {
-			return nil, NewPipelineError(fmt.Errorf("failed to convert pipeline to snapshot mode: %w", err))
-		}
-
-		p.snapshotExecutor, err = dbsp.NewSnapshotExecutor(p.snapshotGraph, p.log)
-		if err != nil {
-			return nil, NewPipelineError(fmt.Errorf("failed to create snapshot executor: %w", err))
-		}
-
-		p.log.V(2).Info("initialized snapshot executor for state-of-the-world reconciliation")
-	}
-
 	// Step 1: Convert source caches to ZSets (current input state).
 	sourceZSets := make(map[string]*dbsp.DocumentZSet)
 	for i, gvk := range p.sources {
@@ -327,6 +321,11 @@ func (p *Pipeline) Sync() ([]object.Delta, error) {
 	}
 
 	// Step 6: Apply deltas to target cache and reconcile.
+	p.outputs = make(map[string]*dbsp.DocumentZSet)
+	if err := p.trackOutput(requiredState); err != nil {
+		return nil, NewPipelineError(fmt.Errorf("failed to track pipeline output: %w", err))
+	}
+
 	deltas, err := p.Reconcile(rawDeltas)
 	if err != nil {
 		return nil, NewPipelineError(fmt.Errorf("failed to reconcile target cache: %w", err))
-- 
2.43.0


From 1d58697624a184160c74fc91385f740abbbc46cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:20 +0000
Subject: [PATCH 07/57] fix: roll back source events that fail to evaluate

A failing evaluation left the source cache and the operator state inconsistent,
so that the object did not recover after the error was corrected.
---
 pkg/pipeline/pipeline.go | 113 ++++++++++++++++++++++++++++++++-------
 1 file changed, 93 insertions(+), 20 deletions(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index e5daf3d..4e9dd7d 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -67,6 +67,7 @@ type Pipeline struct {
 	target           schema.GroupVersionKind
 	targetCache      *cache.Store
 	outputs          map[string]*dbsp.DocumentZSet // Pipeline output per target key
+	rejected         map[string]bool               // Objects with no version accepted by the pipeline
 	snapshotGraph    *dbsp.ChainGraph
 	snapshotExecutor *dbsp.SnapshotExecutor
 	mu               sync.Mutex // Protects against concurrent Evaluate/Sync calls
@@ -93,6 +94,7 @@ func New(operator string, target schema.GroupVersionKind, sources []schema.Group
 		target:      target,
 		targetCache: cache.NewStore(),
 		outputs:     make(map[string]*dbsp.DocumentZSet),
+		rejected:    make(map[string]bool),
 		log:         log,
 	}
 
@@ -208,6 +210,20 @@ func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 
 	p.log.V(2).Info("processing event", "event-type", delta.Type, "object", ObjectKey(delta.Object))
 
+	// Remember the known version of the object to be able to reject the event
+	old, err := p.cachedSource(delta.Object)
+	if err != nil {
+		return nil, NewPipelineError(fmt.Errorf("failed to look up object in the source cache: %w", err))
+	}
+
+	// Nothing to retract if the pipeline has never accepted the deleted object
+	id := sourceID(delta.Object)
+	wasRejected := p.rejected[id]
+	delete(p.rejected, id)
+	if wasRejected && old == nil && delta.Type == object.Deleted {
+		return []object.Delta{}, nil
+	}
+
 	// Init
 	zset, err := p.ConvertDeltaToZSet(delta)
 	if err != nil {
@@ -228,11 +244,13 @@ func (p *Pipeline) Evaluate(delta object.Delta) ([]object.Delta, error) {
 	// Run the DBSP executor
 	res, err := p.executor.Process(dzset)
 	if err != nil {
+		p.reject(delta.Object, old)
 		return nil, NewPipelineError(fmt.Errorf("failed to evaluate the DBSP graph: %w", err))
 	}
 
 	rawDeltas, err := p.ConvertZSetToDelta(res, p.target)
 	if err != nil {
+		p.reject(delta.Object, old)
 		return nil, NewPipelineError(fmt.Errorf("failed to convert DBSP zset to delta: %w", err))
 	}
 
@@ -265,26 +283,9 @@ func (p *Pipeline) Sync() ([]object.Delta, error) {
 	defer p.mu.Unlock()
 
 	// Step 1: Convert source caches to ZSets (current input state).
-	sourceZSets := make(map[string]*dbsp.DocumentZSet)
-	for i, gvk := range p.sources {
-		cache, ok := p.sourceCache[gvk]
-		if !ok {
-			// No cache for this source yet, use empty ZSet.
-			sourceZSets[p.snapshotGraph.GetInput(gvk.Kind).Name()] = dbsp.NewDocumentZSet()
-			continue
-		}
-
-		// Convert cache objects to ZSet.
-		zset := dbsp.NewDocumentZSet()
-		for _, obj := range cache.List() {
-			objCopy := object.DeepCopy(obj)
-			object.RemoveUID(objCopy)
-			if err := zset.AddDocumentMutate(objCopy.UnstructuredContent(), 1); err != nil {
-				return nil, NewPipelineError(
-					fmt.Errorf("failed to convert source cache %d (%s) to zset: %w", i, gvk.Kind, err))
-			}
-		}
-		sourceZSets[p.snapshotGraph.GetInput(gvk.Kind).Name()] = zset
+	sourceZSets, err := p.sourceZSets()
+	if err != nil {
+		return nil, err
 	}
 
 	// Step 2: Run snapshot executor to compute required target state.
@@ -335,3 +336,75 @@ func (p *Pipeline) Sync() ([]object.Delta, error) {
 
 	return deltas, nil
 }
+
+// sourceZSets converts the source caches to z-sets, one for each input.
+func (p *Pipeline) sourceZSets() (map[string]*dbsp.DocumentZSet, error) {
+	sourceZSets := make(map[string]*dbsp.DocumentZSet)
+	for i, gvk := range p.sources {
+		cache, ok := p.sourceCache[gvk]
+		if !ok {
+			// No cache for this source yet, use empty ZSet.
+			sourceZSets[p.snapshotGraph.GetInput(gvk.Kind).Name()] = dbsp.NewDocumentZSet()
+			continue
+		}
+
+		// Convert cache objects to ZSet.
+		zset := dbsp.NewDocumentZSet()
+		for _, obj := range cache.List() {
+			objCopy := object.DeepCopy(obj)
+			object.RemoveUID(objCopy)
+			if err := zset.AddDocumentMutate(objCopy.UnstructuredContent(), 1); err != nil {
+				return nil, NewPipelineError(
+					fmt.Errorf("failed to convert source cache %d (%s) to zset: %w", i, gvk.Kind, err))
+			}
+		}
+		sourceZSets[p.snapshotGraph.GetInput(gvk.Kind).Name()] = zset
+	}
+
+	return sourceZSets, nil
+}
+
+// cachedSource returns the version of a source object known to the pipeline (nil if none).
+func (p *Pipeline) cachedSource(obj object.Object) (object.Object, error) {
+	store, ok := p.sourceCache[obj.GroupVersionKind()]
+	if !ok {
+		return nil, nil
+	}
+	old, exists, err := store.Get(obj)
+	if err != nil || !exists {
+		return nil, err
+	}
+	return old, nil
+}
+
+// sourceID identifies a source object.
+func sourceID(obj object.Object) string {
+	return fmt.Sprintf("%s/%s", obj.GroupVersionKind(), ObjectKey(obj))
+}
+
+// reject rolls back an event that could not be evaluated: it restores the source cache and rebuilds
+// the state of the incremental operators. Otherwise the pipeline would later retract documents it
+// has never produced and the object would not recover even after the cause of the error is removed.
+func (p *Pipeline) reject(obj, old object.Object) {
+	store := p.sourceCache[obj.GroupVersionKind()]
+	var err error
+	if old != nil {
+		err = store.Update(old)
+	} else {
+		err = store.Delete(obj)
+		p.rejected[sourceID(obj)] = true
+	}
+	if err != nil {
+		p.log.Error(err, "failed to restore source cache", "object", ObjectKey(obj))
+	}
+
+	zsets, err := p.sourceZSets()
+	if err != nil {
+		p.log.Error(err, "failed to restore executor state")
+		return
+	}
+	p.executor.Reset()
+	if _, err := p.executor.Process(zsets); err != nil {
+		p.log.Error(err, "failed to restore executor state")
+	}
+}
-- 
2.43.0


From fa01830c9d2d56e497fd1ec6f0fd3f7187e3dc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 08/57] fix: copy the document given to
 DocumentZSet.AddDocument

---
 pkg/dbsp/op_bilinear.go | 2 +-
 pkg/dbsp/zset.go        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/dbsp/op_bilinear.go b/pkg/dbsp/op_bilinear.go
index ffcf31e..3a02bcc 100644
--- a/pkg/dbsp/op_bilinear.go
+++ b/pkg/dbsp/op_bilinear.go
@@ -223,7 +223,7 @@ func (n *BinaryJoinOp) Process(inputs ...*DocumentZSet) (*DocumentZSet, error) {
 			resultMult := leftMult * rightMult
 
 			for _, joinedDoc := range joinedDocs {
-				result, err = result.AddDocument(DeepCopyDocument(joinedDoc), resultMult)
+				result, err = result.AddDocument(joinedDoc, resultMult)
 				if err != nil {
 					return nil, err
 				}
diff --git a/pkg/dbsp/zset.go b/pkg/dbsp/zset.go
index 4601967..ea0da5f 100644
--- a/pkg/dbsp/zset.go
+++ b/pkg/dbsp/zset.go
@@ -44,7 +44,7 @@ func NewDocumentZSet() *DocumentZSet {
 // the core operation for building Z-sets. It copies the added doc.
 func (dz *DocumentZSet) AddDocument(doc Document, count int) (*DocumentZSet, error) {
 	result := dz.ShallowCopy()
-	err := result.AddDocumentMutate(doc, count)
+	err := result.AddDocumentMutate(DeepCopyDocument(doc), count)
 	return result, err
 }
 
-- 
2.43.0


From 28e69c1608a35c4812a09d56ca9a675aa66e8dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:56 +0000
Subject: [PATCH 09/57] fix: fused projections evaluate on a copy of the
 document like plain projections

---
 pkg/dbsp/fused_op.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/dbsp/fused_op.go b/pkg/dbsp/fused_op.go
index b8af9c9..6268acc 100644
--- a/pkg/dbsp/fused_op.go
+++ b/pkg/dbsp/fused_op.go
@@ -31,8 +31,8 @@ func (op *ProjectThenSelectOp) Process(inputs ...*DocumentZSet) (*DocumentZSet,
 	for key, multiplicity := range input.counts {
 		doc := input.docs[key]
 
-		// Apply projection
-		projectedDocs, err := op.projEval.Evaluate(doc)
+		// Apply projection: evaluator modifies doc
+		projectedDocs, err := op.projEval.Evaluate(DeepCopyDocument(doc))
 		if err != nil {
 			return nil, err
 		}
@@ -119,7 +119,7 @@ func (op *SelectThenProjectionsOp) Process(inputs ...*DocumentZSet) (*DocumentZS
 
 		// Apply projection chain to each document that passed selection
 		for _, docToProcess := range docsToProcess {
-			currentDoc := docToProcess
+			currentDoc := DeepCopyDocument(docToProcess) // evaluator modifies doc
 
 			// Apply chain of projections sequentially
 			for _, projEval := range op.projEvals {
-- 
2.43.0


From 26aeeac2852aa15dee06f4c1560709024d28c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:39 +0000
Subject: [PATCH 10/57] fix: parse null literals as nil and keep @any when an
 expression is serialized

---
 pkg/expression/marshaler.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 1224210..64d083c 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -1,6 +1,7 @@
 package expression
 
 import (
+	"bytes"
 	"encoding/json"
 	"fmt"
 	"reflect"
@@ -10,6 +11,12 @@ import (
 // UnmarshalJSON de-serializes an expression from JSON.
 func (e *Expression) UnmarshalJSON(b []byte) error {
 	// cut raw content
+	// a null literal evaluates to nil
+	if string(bytes.TrimSpace(b)) == "null" {
+		*e = Expression{Op: "@noop"}
+		return nil
+	}
+
 	// try to unmarshal as a bool terminal expression
 	bv := false
 	if err := json.Unmarshal(b, &bv); err == nil {
@@ -77,8 +84,13 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 	}
 
 	switch e.Op {
-	case "@any":
-		return json.Marshal(e.Literal)
+	case "@noop":
+		if e.Arg != nil {
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
+		}
+		// null literal
+		return []byte("null"), nil
 
 	case "@bool":
 		if e.Arg != nil {
-- 
2.43.0


From 0fdf759ec6b466e13fbbed0d67b755a9c97b6fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:54 +0000
Subject: [PATCH 11/57] fix: keep floats and @list/@dict conversions when an
 expression is serialized

---
 pkg/expression/literal.go   |  2 +-
 pkg/expression/marshaler.go | 19 +++++++++++++++----
 2 files changed, 16 insertions(+), 5 deletions(-)

diff --git a/pkg/expression/literal.go b/pkg/expression/literal.go
index b75b84b..712fd94 100644
--- a/pkg/expression/literal.go
+++ b/pkg/expression/literal.go
@@ -13,7 +13,7 @@ func NewLiteralExpression(value any) (Expression, error) {
 	case string:
 		op = "@string"
 	case float32, float64:
-		op = "float"
+		op = "@float"
 	default:
 		return Expression{}, fmt.Errorf("cannot create a literal expression from an "+
 			"argument %#v", value)
diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 64d083c..40f2105 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -126,7 +126,15 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 		if err != nil {
 			return []byte(""), err
 		}
-		return json.Marshal(v)
+		js, err := json.Marshal(v)
+		if err != nil {
+			return []byte(""), err
+		}
+		if !bytes.ContainsAny(js, ".eE") {
+			// make sure this will be parsed as a float
+			js = append(js, ".0"...)
+		}
+		return js, nil
 
 	case "@string":
 		if e.Arg != nil {
@@ -142,7 +150,9 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@list":
 		if e.Arg != nil {
-			return json.Marshal(e.Arg)
+			// keep the op for a correct round-trip
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 		es, ok := e.Literal.([]Expression)
 		if !ok {
@@ -152,8 +162,9 @@ func (e *Expression) MarshalJSON() ([]byte, error) {
 
 	case "@dict":
 		if e.Arg != nil {
-			// can this ever happen?
-			return json.Marshal(e.Arg)
+			// keep the op for a correct round-trip
+			ret := map[string]*Expression{e.Op: e.Arg}
+			return json.Marshal(ret)
 		}
 
 		es, ok := e.Literal.(map[string]Expression)
-- 
2.43.0


From ba2c0b97051150314f6e9f19ff6114c27126dc1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:20 +0000
Subject: [PATCH 12/57] fix: convert floats to their decimal form in @string
 and @concat

---
 pkg/expression/converter.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/converter.go b/pkg/expression/converter.go
index 12185dc..8f61ddd 100644
--- a/pkg/expression/converter.go
+++ b/pkg/expression/converter.go
@@ -81,8 +81,10 @@ func AsString(d any) (string, error) {
 	switch reflect.ValueOf(d).Kind() { //nolint:exhaustive
 	case reflect.String:
 		return reflect.ValueOf(d).String(), nil
-	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr, reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
+	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64, reflect.Uintptr:
 		return fmt.Sprintf("%d", d), nil
+	case reflect.Float32, reflect.Float64, reflect.Complex64, reflect.Complex128:
+		return fmt.Sprintf("%v", d), nil
 	}
 
 	return "", fmt.Errorf("argument is not a string: %s", util.Stringify(d))
-- 
2.43.0


From 75b42044c6324283983a9ca1aae20a651259cab4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:35 +0000
Subject: [PATCH 13/57] fix: do not crash on malformed @map, @rnd and @range
 arguments and make @none decide

---
 pkg/expression/expression.go | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index bea0d5e..5cfd648 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -43,6 +43,9 @@ import (
 	"k8s.io/apimachinery/pkg/util/json"
 )
 
+// maxRangeSize is the maximum number of elements in the list returned by @range.
+const maxRangeSize = 1 << 20
+
 // EvalCtx defines the context for a running evaluation.
 type EvalCtx struct {
 	Object, Subject any
@@ -561,7 +564,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, errors.New("invalid arguments: expected a list")
 			}
 
-			v := false
+			v := true
 			for _, input := range list {
 				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
 				if err != nil {
@@ -638,6 +641,11 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 				return nil, NewExpressionError(e, err)
 			}
 
+			if len(args) != 2 {
+				return nil, NewExpressionError(e,
+					errors.New("invalid arguments: expected 2 arguments"))
+			}
+
 			// function
 			exp := args[0]
 
@@ -759,7 +767,10 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			min := args[0]
 			max := args[1]
-			v := int64(rand.Intn(int(max-min)) + int(min)) //nolint:gosec
+			if max <= min || max-min < 0 {
+				return nil, NewExpressionError(e, errors.New("expected a nonempty range [min, max]"))
+			}
+			v := rand.Int63n(max-min) + min //nolint:gosec
 			ctx.Log.V(8).Info("eval ready", "expression", e.String(), "args", args, "result", v)
 			return v, nil
 
@@ -1130,6 +1141,10 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 			if args[0] > args[1] {
 				args[0] = args[1]
 			}
+			if size := args[1] - args[0]; size < 0 || size > maxRangeSize {
+				return nil, NewExpressionError(e, fmt.Errorf("range too large: at most %d elements "+
+					"are supported", maxRangeSize))
+			}
 			result := make([]any, 0, args[1]-args[0])
 			for i := args[0]; i < args[1]; i++ {
 				result = append(result, i)
-- 
2.43.0


From 75348253a38fa0c55d4e6923595085d5d87e8f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:19 +0000
Subject: [PATCH 14/57] fix: do not evaluate string values of the subject as
 paths or placeholders

---
 pkg/expression/expression.go | 18 +++++++++++-------
 pkg/expression/jsonpath.go   | 11 +----------
 2 files changed, 12 insertions(+), 17 deletions(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index 5cfd648..17e14a2 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -142,13 +142,17 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 			return nil, NewExpressionError(e, err)
 		}
 
-		ret, err := GetJSONPath(ctx, str)
-		if err != nil {
-			return nil, err
-		}
-
-		if ret == "@now" {
-			ret = time.Now().UTC().Format("2006-01-02T15:04:05Z07:00")
+		// only literals are paths or placeholders, values obtained from the subject are not
+		var ret any = str
+		if e.Arg == nil {
+			if str == "@now" {
+				ret = time.Now().UTC().Format("2006-01-02T15:04:05Z07:00")
+			} else {
+				ret, err = GetJSONPath(ctx, str)
+				if err != nil {
+					return nil, err
+				}
+			}
 		}
 
 		ctx.Log.V(8).Info("eval ready", "expression", e.String(), "result", ret)
diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 11d94fc..444aa43 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -41,20 +41,11 @@ func GetJSONPath(ctx EvalCtx, key string) (any, error) {
 
 // SetJSONPath overwrites the data in-place with the given value at the given key. Leaves the rest
 // of the data unchanged.
-func SetJSONPath(ctx EvalCtx, key string, value, data any) error {
+func SetJSONPath(_ EvalCtx, key string, value, data any) error {
 	if len(key) == 0 {
 		return errors.New("empty key")
 	}
 
-	// first get the value
-	if str, ok := value.(string); ok {
-		res, err := GetJSONPath(ctx, str)
-		if err != nil {
-			return err
-		}
-		value = res
-	}
-
 	// copy: if key is a JSONpath root ref and the result is a map, overwrite the entire map
 	// if d, ok := data.(Unstructured); ok && key == "$." {
 	if key == "$." {
-- 
2.43.0


From 1eb78d1bc8b50dbcb2681662c445abc9949de7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:52 +0000
Subject: [PATCH 15/57] fix: construct objects in key order and without sharing
 content with the subject

---
 pkg/expression/expression.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index 17e14a2..d1d9b20 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -31,6 +31,7 @@ package expression
 import (
 	"errors"
 	"fmt"
+	"maps"
 	"math"
 	"math/rand"
 	"reflect"
@@ -41,6 +42,8 @@ import (
 	"github.com/go-logr/logr"
 	"github.com/grokify/mogo/encoding/base36"
 	"k8s.io/apimachinery/pkg/util/json"
+
+	"github.com/l7mp/dcontroller/pkg/object"
 )
 
 // maxRangeSize is the maximum number of elements in the list returned by @range.
@@ -225,13 +228,16 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 					errors.New("argument must be a string->expression map"))
 			}
 
-			for k, exp := range vm {
+			// keys may be paths that overlap: set them in a fixed order and on copies so
+			// that the subject is not modified
+			for _, k := range slices.Sorted(maps.Keys(vm)) {
 				// evaluate arguments
+				exp := vm[k]
 				res, err := exp.Evaluate(ctx)
 				if err != nil {
 					return nil, err
 				}
-				err = SetJSONPath(ctx, k, res, ret)
+				err = SetJSONPath(ctx, k, object.DeepCopyAny(res), ret)
 				if err != nil {
 					return nil, NewExpressionError(e,
 						fmt.Errorf("could not deference JSON \"set\" expression: %w", err))
-- 
2.43.0


From 887b8485ea1a85acea65be0f90f52af23f44798c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:16:14 +0000
Subject: [PATCH 16/57] fix: bind the local subject to null list items

---
 pkg/expression/expression.go | 12 +++++++-----
 pkg/expression/jsonpath.go   |  2 +-
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/pkg/expression/expression.go b/pkg/expression/expression.go
index d1d9b20..6ee6cad 100644
--- a/pkg/expression/expression.go
+++ b/pkg/expression/expression.go
@@ -53,6 +53,8 @@ const maxRangeSize = 1 << 20
 type EvalCtx struct {
 	Object, Subject any
 	Log             logr.Logger
+	// local is true inside list operators, where the local subject may also be nil.
+	local bool
 }
 
 // Expression defines a single expression op.
@@ -478,7 +480,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			vs := []any{}
 			for _, input := range list {
-				res, err := cond.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := cond.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log, local: true})
 				if err != nil {
 					return nil, err
 				}
@@ -527,7 +529,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			v := false
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log, local: true})
 				if err != nil {
 					return nil, err
 				}
@@ -576,7 +578,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			v := true
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log, local: true})
 				if err != nil {
 					return nil, err
 				}
@@ -624,7 +626,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			v := true
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log, local: true})
 				if err != nil {
 					return nil, err
 				}
@@ -672,7 +674,7 @@ func (e *Expression) Evaluate(ctx EvalCtx) (any, error) {
 
 			vs := []any{}
 			for _, input := range list {
-				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log})
+				res, err := exp.Evaluate(EvalCtx{Object: ctx.Object, Subject: input, Log: ctx.Log, local: true})
 				if err != nil {
 					return nil, err
 				}
diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 444aa43..4af2743 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -25,7 +25,7 @@ func GetJSONPath(ctx EvalCtx, key string) (any, error) {
 	subject := ctx.Object
 
 	// $$... is local subject (@map, @filter, etc.)
-	if len(key) >= 2 && key[0] == '$' && key[1] == '$' && ctx.Subject != nil {
+	if len(key) >= 2 && key[0] == '$' && key[1] == '$' && (ctx.Subject != nil || ctx.local) {
 		// remove first $
 		key = key[1:]
 		subject = ctx.Subject
-- 
2.43.0


From bdc0f74004d5a7f256f3d925754251dc9347a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:12 +0000
Subject: [PATCH 17/57] fix: unpack only single-element lists so that list
 operands are kept apart

---
 pkg/expression/marshaler.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/marshaler.go b/pkg/expression/marshaler.go
index 40f2105..139cf48 100644
--- a/pkg/expression/marshaler.go
+++ b/pkg/expression/marshaler.go
@@ -220,7 +220,7 @@ func (e *Expression) DeepCopyInto(out *Expression) {
 	}
 }
 
-// unpackList unpacks the first-level list, if any.
+// unpackList unpacks the first-level list, if the list contains nothing else.
 func unpackList(a any) []any {
 	v := reflect.ValueOf(a)
 
@@ -234,6 +234,11 @@ func unpackList(a any) []any {
 		return []any{}
 	}
 
+	// If there are more elements, the list is not a wrapper for another list
+	if v.Len() > 1 {
+		return a.([]any)
+	}
+
 	// If it's [][]any, return the first slice
 	elemKind := v.Type().Elem().Kind()
 	if elemKind == reflect.Slice || elemKind == reflect.Array {
-- 
2.43.0


From a1ad86cdbe9d5582a48848516f21e30430cc22f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:20 +0000
Subject: [PATCH 18/57] fix: deep-copy the expressions of a pipeline

---
 pkg/api/operator/v1alpha1/pipeline_types.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/api/operator/v1alpha1/pipeline_types.go b/pkg/api/operator/v1alpha1/pipeline_types.go
index cf01c5b..46e6ccc 100644
--- a/pkg/api/operator/v1alpha1/pipeline_types.go
+++ b/pkg/api/operator/v1alpha1/pipeline_types.go
@@ -117,15 +117,25 @@ func deepCopyPipelineOp(op PipelineOp) PipelineOp {
 
 	switch v := op.(type) {
 	case *JoinOp:
-		return &JoinOp{Expression: v.Expression}
+		ret := &JoinOp{}
+		v.Expression.DeepCopyInto(&ret.Expression)
+		return ret
 	case *SelectionOp:
-		return &SelectionOp{Expression: v.Expression}
+		ret := &SelectionOp{}
+		v.Expression.DeepCopyInto(&ret.Expression)
+		return ret
 	case *ProjectionOp:
-		return &ProjectionOp{Expression: v.Expression}
+		ret := &ProjectionOp{}
+		v.Expression.DeepCopyInto(&ret.Expression)
+		return ret
 	case *UnwindOp:
-		return &UnwindOp{Expression: v.Expression}
+		ret := &UnwindOp{}
+		v.Expression.DeepCopyInto(&ret.Expression)
+		return ret
 	case *GatherOp:
-		return &GatherOp{Expression: v.Expression}
+		ret := &GatherOp{}
+		v.Expression.DeepCopyInto(&ret.Expression)
+		return ret
 	default:
 		return nil
 	}
-- 
2.43.0


From f6fdb30c8fb6bbc34e74f6017f5aeb7e89050ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:34 +0000
Subject: [PATCH 19/57] fix: reject setting list indices that cannot be
 allocated

---
 pkg/expression/jsonpath.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 4af2743..359cd57 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -86,6 +86,9 @@ func SetJSONPath(_ EvalCtx, key string, value, data any) error {
 
 // low-level utils
 
+// maxListIndex is the largest list index that can be set.
+const maxListIndex = 1 << 20
+
 // GetJSONPathRaw evaluates a JSONPath expression on the specified object and returns the result or
 // an error.
 func GetJSONPathRaw(query string, object any) (any, error) {
@@ -114,6 +117,13 @@ func SetJSONPathRaw(key string, value, target any) error {
 		return err
 	}
 
+	// setting an index beyond the end of a list fills the list up to the index
+	for _, frag := range je {
+		if n, ok := frag.(jp.Nth); ok && (n > maxListIndex || n < -maxListIndex) {
+			return fmt.Errorf("list index %d out of range", n)
+		}
+	}
+
 	return je.Set(target, value)
 }
 
-- 
2.43.0


From c88f9e9c616958177ce7fd3a2cea943216e35b7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:44 +0000
Subject: [PATCH 20/57] fix: return an error when the JSONPath library panics

---
 pkg/expression/jsonpath.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 359cd57..f27c14a 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -89,9 +89,18 @@ func SetJSONPath(_ EvalCtx, key string, value, data any) error {
 // maxListIndex is the largest list index that can be set.
 const maxListIndex = 1 << 20
 
+// recoverJSONPath turns a panic of the JSONPath library, which crashes on some filters, into an error.
+func recoverJSONPath(query string, err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("cannot apply JSONPath expression %q: %v", query, r)
+	}
+}
+
 // GetJSONPathRaw evaluates a JSONPath expression on the specified object and returns the result or
 // an error.
-func GetJSONPathRaw(query string, object any) (any, error) {
+func GetJSONPathRaw(query string, object any) (ret any, err error) {
+	defer recoverJSONPath(query, &err)
+
 	je, err := jp.ParseString(query)
 	if err != nil {
 		return nil, err
@@ -111,7 +120,9 @@ func GetJSONPathRaw(query string, object any) (any, error) {
 // SetJSONPathRaw sets a key (possibly represented with a JSONPath expression) to a value (can also
 // be a JSONPath expression, which will be evaluated using the object argument) in the given data
 // structure.
-func SetJSONPathRaw(key string, value, target any) error {
+func SetJSONPathRaw(key string, value, target any) (err error) {
+	defer recoverJSONPath(key, &err)
+
 	je, err := jp.ParseString(key)
 	if err != nil {
 		return err
-- 
2.43.0


From 87bf1c1794f0faae4dd1fbe544bc8e3f81419622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:27 +0000
Subject: [PATCH 21/57] fix: reject setters with several recursive descents,
 which never end

---
 pkg/expression/jsonpath.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index f27c14a..252a3dc 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -128,10 +128,19 @@ func SetJSONPathRaw(key string, value, target any) (err error) {
 		return err
 	}
 
-	// setting an index beyond the end of a list fills the list up to the index
+	descents := 0
 	for _, frag := range je {
-		if n, ok := frag.(jp.Nth); ok && (n > maxListIndex || n < -maxListIndex) {
-			return fmt.Errorf("list index %d out of range", n)
+		switch f := frag.(type) {
+		case jp.Nth:
+			// setting an index beyond the end of a list fills the list up to the index
+			if f > maxListIndex || f < -maxListIndex {
+				return fmt.Errorf("list index %d out of range", f)
+			}
+		case jp.Descent:
+			// a second descent would visit, and set fields in, the value just set
+			if descents++; descents > 1 {
+				return fmt.Errorf("cannot set a value at more than one recursive descent")
+			}
 		}
 	}
 
-- 
2.43.0


From a6e10575d17440cb20a4c3b193b488d5a4984cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 22/57] fix: let null override in projection steps and merge
 without sharing content

---
 pkg/object/utils.go | 35 +++++++++++++++--------------------
 1 file changed, 15 insertions(+), 20 deletions(-)

diff --git a/pkg/object/utils.go b/pkg/object/utils.go
index de71d73..0ee4e2f 100644
--- a/pkg/object/utils.go
+++ b/pkg/object/utils.go
@@ -106,42 +106,37 @@ func DeepCopyAny(value any) any {
 	}
 }
 
-// MergeAny merges two arbitrary values.
+// MergeAny merges two arbitrary values. The result does not share content with the arguments.
 func MergeAny(a, b any) (any, error) {
 	if a == nil {
-		return b, nil
+		return DeepCopyAny(b), nil
 	}
 	switch vb := b.(type) {
-	case bool, int64, float64, string:
+	case nil, bool, int64, float64, string:
 		return b, nil
 	case []any:
 		if va, ok := a.([]any); ok {
-			return append(va, vb...), nil
+			return append(DeepCopyAny(va).([]any), DeepCopyAny(vb).([]any)...), nil
 		}
-		return vb, nil
+		return DeepCopyAny(vb), nil
 	case map[string]any:
 		if va, ok := a.(map[string]any); ok {
 			ret := DeepCopyAny(va).(map[string]any)
-			for k, mva := range va {
-				if mvb, ok := vb[k]; ok {
-					x, err := MergeAny(mva, mvb)
-					if err != nil {
-						return nil, err
-					}
-					ret[k] = x
-				} else {
-					ret[k] = mva
-				}
-			}
-
 			for k, mvb := range vb {
-				if _, ok := va[k]; !ok {
-					ret[k] = mvb
+				mva, ok := va[k]
+				if !ok {
+					ret[k] = DeepCopyAny(mvb)
+					continue
+				}
+				x, err := MergeAny(mva, mvb)
+				if err != nil {
+					return nil, err
 				}
+				ret[k] = x
 			}
 			return ret, nil
 		}
-		return vb, nil
+		return DeepCopyAny(vb), nil
 	}
 	return nil, fmt.Errorf("could not merge argument %q and %q", a, b)
 }
-- 
2.43.0


From 8eb147946395e1fbbb0de268f1c31c1ee40b14bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:21 +0000
Subject: [PATCH 23/57] fix: report setters that do not fit the data instead of
 dropping them

---
 pkg/expression/jsonpath.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/pkg/expression/jsonpath.go b/pkg/expression/jsonpath.go
index 252a3dc..d7c4cb7 100644
--- a/pkg/expression/jsonpath.go
+++ b/pkg/expression/jsonpath.go
@@ -144,7 +144,16 @@ func SetJSONPathRaw(key string, value, target any) (err error) {
 		}
 	}
 
-	return je.Set(target, value)
+	if err := je.Set(target, value); err != nil {
+		return err
+	}
+
+	// the library ignores indices of maps and fields of lists
+	if je.Normal() && !je.Has(target) {
+		return fmt.Errorf("cannot set %q: the path does not fit the data", key)
+	}
+
+	return nil
 }
 
 // SetJSONPathRawExp is the same as SetJSONPathRaw but takes the key as a string expression.
-- 
2.43.0


From 9dc7ec260d40e162b9d4ddc905cc9987e5de98e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:56:51 +0000
Subject: [PATCH 24/57] fix: remove fields given as null also when a patch adds
 or repeats content

---
 pkg/object/patch.go | 51 ++++++++++++++++++++++++++-------------------
 1 file changed, 30 insertions(+), 21 deletions(-)

diff --git a/pkg/object/patch.go b/pkg/object/patch.go
index 531e69d..514a375 100644
--- a/pkg/object/patch.go
+++ b/pkg/object/patch.go
@@ -2,7 +2,6 @@ package object
 
 import (
 	"fmt"
-	"reflect"
 
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime"
@@ -24,12 +23,8 @@ func Patch(obj Object, m map[string]any) error {
 }
 
 func patch(o, m any) any {
-	if reflect.DeepEqual(o, m) {
-		return DeepCopyAny(m)
-	}
-
 	if o == nil {
-		return DeepCopyAny(m)
+		return dropNulls(m)
 	}
 
 	switch x := m.(type) {
@@ -40,17 +35,13 @@ func patch(o, m any) any {
 		litlm := x
 		litlo, ok2 := o.([]any)
 		if !ok2 {
-			return DeepCopyAny(litlm)
+			return dropNulls(litlm)
 		}
 
 		retl := DeepCopyAny(litlo).([]any)
 		for i := range litlm {
 			if i >= len(litlo) {
-				retl = append(retl, DeepCopyAny(litlm[i]))
-				continue
-			}
-			if reflect.DeepEqual(litlo[i], litlm[i]) {
-				retl[i] = DeepCopyAny(litlm[i])
+				retl = append(retl, dropNulls(litlm[i]))
 				continue
 			}
 			retl[i] = patch(litlo[i], litlm[i])
@@ -61,7 +52,7 @@ func patch(o, m any) any {
 		litmm := x
 		litmo, ok2 := o.(map[string]any)
 		if !ok2 {
-			return DeepCopyAny(litmm)
+			return dropNulls(litmm)
 		}
 
 		retm := DeepCopyAny(litmo).(map[string]any)
@@ -73,12 +64,7 @@ func patch(o, m any) any {
 
 			vo, ok := litmo[k]
 			if !ok {
-				retm[k] = DeepCopyAny(v)
-				continue
-			}
-
-			if reflect.DeepEqual(vo, v) {
-				retm[k] = DeepCopyAny(v)
+				retm[k] = dropNulls(v)
 				continue
 			}
 
@@ -87,8 +73,31 @@ func patch(o, m any) any {
 		}
 		return retm
 	default:
-		// this should never happen so we should panic here but we won't
-		return nil
+		// null list items and values of unexpected types
+		return DeepCopyAny(m)
+	}
+}
+
+// dropNulls clones a patch value that has no counterpart in the patched object: there are no
+// fields to remove.
+func dropNulls(m any) any {
+	switch x := m.(type) {
+	case []any:
+		ret := make([]any, len(x))
+		for i, v := range x {
+			ret[i] = dropNulls(v)
+		}
+		return ret
+	case map[string]any:
+		ret := make(map[string]any, len(x))
+		for k, v := range x {
+			if v != nil {
+				ret[k] = dropNulls(v)
+			}
+		}
+		return ret
+	default:
+		return DeepCopyAny(m)
 	}
 }
 
-- 
2.43.0


From ea4ce0b6b4d144cde0646ff9c9ff1238415dc71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:59 +0000
Subject: [PATCH 25/57] fix: decode secrets on a copy so that retries and
 patches see the original data

---
 pkg/controller/reconcilers.go | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/pkg/controller/reconcilers.go b/pkg/controller/reconcilers.go
index c0351d0..f12dc78 100644
--- a/pkg/controller/reconcilers.go
+++ b/pkg/controller/reconcilers.go
@@ -44,8 +44,9 @@ func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Re
 		return reconcile.Result{}, nil
 	}
 
-	// Automatically decode Secret data fields for use in pipeline expressions.
-	obj := object.DecodeSecretData(req.Object)
+	// Automatically decode Secret data fields for use in pipeline expressions. Work on a copy: the
+	// request may be retried and the snapshot may be written back.
+	obj := object.DecodeSecretData(object.DeepCopy(req.Object))
 
 	// Create the delta
 	delta := object.Delta{
@@ -100,9 +101,6 @@ func NewStateOfTheWorldReconciler(mgr manager.Manager, c *DeclarativeController)
 // target state (based on current sources) and the actual target state, then applies
 // the delta to bring the target up to date.
 func (r *StateOfTheWorldReconciler) Reconcile(ctx context.Context, req reconciler.Request) (reconcile.Result, error) {
-	// Automatically decode Secret data fields for use in pipeline expressions.
-	req.Object = object.DecodeSecretData(req.Object)
-
 	// Call pipeline.Sync() to compute the delta needed to reconcile target state.
 	deltas, err := r.controller.pipeline.Sync()
 	if err != nil {
-- 
2.43.0


From 4dabcbc3e12103102cc062dda0fe7f6d5e6faa11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 26/57] fix: identify views of operators and native groups with
 dots in their names

GetOperator took the last label of the operator's name and MapFromView the
first label of the native group, and any group merely ending in the view
suffix counted as a view group.
---
 pkg/api/view/v1alpha1/group_version.go | 43 ++++++++++++++++++--------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/pkg/api/view/v1alpha1/group_version.go b/pkg/api/view/v1alpha1/group_version.go
index 1c8e43b..3c93309 100644
--- a/pkg/api/view/v1alpha1/group_version.go
+++ b/pkg/api/view/v1alpha1/group_version.go
@@ -3,6 +3,7 @@ package v1alpha1
 import (
 	"errors"
 	"fmt"
+	"regexp"
 	"strings"
 
 	"k8s.io/apimachinery/pkg/runtime/schema"
@@ -48,35 +49,51 @@ func MapFromView(gvk schema.GroupVersionKind) (schema.GroupVersionKind, error) {
 	if !IsViewGroup(gvk.Group) {
 		return schema.GroupVersionKind{}, errors.New("not a view resource")
 	}
-	ps := strings.SplitN(gvk.Group, ".", 3)
-	if len(ps) != 3 {
+	group, version, _ := splitGroup(gvk.Group)
+	if version == "" {
 		return schema.GroupVersionKind{}, errors.New("invalid view resource")
 	}
 	// un-specialcase corev1
-	if ps[0] == "core" {
-		ps[0] = ""
+	if group == "core" {
+		group = ""
 	}
 
 	return schema.GroupVersionKind{
-		Group:   ps[0],
-		Version: ps[1],
+		Group:   group,
+		Version: version,
 		Kind:    gvk.Kind,
 	}, nil
 }
 
 // GetOperator returns the operator name for a view resource.
 func GetOperator(gvk schema.GroupVersionKind) string {
-	s := gvk.Group
-	if strings.HasSuffix(s, fullGroupSuffix) {
-		prefix := s[:len(s)-len(fullGroupSuffix)]
-		ps := strings.Split(prefix, ".")
-		return ps[len(ps)-1]
+	_, _, operator := splitGroup(gvk.Group)
+	return operator
+}
+
+var versionRegexp = regexp.MustCompile(`^v[0-9]+((alpha|beta)[0-9]+)?$`)
+
+// splitGroup splits the group of a view into the operator and, for native objects mapped into a
+// view, the native group and version. Both the native group and the operator may contain dots: the
+// version is the first label between them that has the form of an API version.
+func splitGroup(viewGroup string) (group, version, operator string) {
+	prefix, ok := strings.CutSuffix(viewGroup, fullGroupSuffix)
+	if !ok {
+		return "", "", ""
 	}
-	return ""
+	ps := strings.Split(prefix, ".")
+	for i := 1; i < len(ps)-1; i++ {
+		if versionRegexp.MatchString(ps[i]) {
+			return strings.Join(ps[:i], "."), ps[i], strings.Join(ps[i+1:], ".")
+		}
+	}
+	return "", "", prefix
 }
 
 // IsViewGroup checks whether a group belongs to a view resource.
-func IsViewGroup(group string) bool { return strings.HasSuffix(group, GroupSuffix) }
+func IsViewGroup(group string) bool {
+	return group == GroupSuffix || strings.HasSuffix(group, fullGroupSuffix)
+}
 
 // IsViewGroupVersion checks whether a group-version belongs to a view resource.
 func IsViewGroupVersion(gv schema.GroupVersion) bool {
-- 
2.43.0


From 71d90508bf237621ccedb82deb906de86cbc4b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 27/57] fix: look up views by the type of the object in the
 view client

Updates, patches and bulk deletions looked for the object under another type
if the operator's name contained a dot or the view was mapped from a native type.
---
 pkg/cache/view_client.go | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 88dc34c..f3b1da0 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -83,7 +83,7 @@ func (c *ViewCacheClient) Update(ctx context.Context, obj client.Object, opts ..
 	}
 
 	// For updates, we need to get the old object first
-	oldObj := object.NewViewObject(object.GetOperator(newObj), newObj.GetKind())
+	oldObj := emptyViewObject(newObj.GroupVersionKind())
 	object.SetName(oldObj, newObj.GetNamespace(), newObj.GetName())
 
 	// Get the current version from cache
@@ -111,7 +111,7 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 	}
 
 	// Get current object
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
+	current := emptyViewObject(o.GroupVersionKind())
 	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
 		return fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj), err)
 	}
@@ -160,7 +160,8 @@ func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 		return fmt.Errorf("object must implement object.Object interface")
 	}
 
-	list := NewViewObjectList(object.GetOperator(viewObj), viewObj.GetKind())
+	list := &unstructured.UnstructuredList{}
+	list.SetGroupVersionKind(NewViewDiscovery().ListGVKFromObjectGVK(viewObj.GroupVersionKind()))
 	if err := c.cache.List(ctx, list, listOpts...); err != nil {
 		return err
 	}
@@ -242,7 +243,7 @@ func (sr *viewSubResourceClient) Get(ctx context.Context, obj, subResource clien
 		return errors.New("sub-resource must be an object.Object")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
+	current := emptyViewObject(o.GroupVersionKind())
 	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
 		return err
 	}
@@ -278,7 +279,7 @@ func (sr *viewSubResourceClient) Create(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
+	current := emptyViewObject(o.GroupVersionKind())
 	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
 		return err
 	}
@@ -297,7 +298,7 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("object must be an object.Object")
 	}
 
-	current := object.NewViewObject(object.GetOperator(o), o.GetKind())
+	current := emptyViewObject(o.GroupVersionKind())
 	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
 		return err
 	}
@@ -330,3 +331,11 @@ func (sr *viewSubResourceClient) Patch(ctx context.Context, obj client.Object, p
 	// For ViewCache, status is just part of the object - patch the whole object
 	return sr.client.Patch(ctx, obj, patch)
 }
+
+// emptyViewObject creates an empty view object of the given type.
+func emptyViewObject(gvk schema.GroupVersionKind) object.Object {
+	obj := object.New()
+	obj.SetUnstructuredContent(map[string]any{})
+	obj.SetGroupVersionKind(gvk)
+	return obj
+}
-- 
2.43.0


From 7712af57a84675c8ad694ffd89eba2141728782b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 28/57] fix: let the view REST mapper map view groups

The test whether a group is a view group was inverted, the fallback of the
composite mapper recognized no view, and the case of registered kinds was lost.
---
 pkg/cache/restmapper.go      |  7 ++++++-
 pkg/cache/view_restmapper.go | 34 ++++++++++++++++++++++++++++------
 2 files changed, 34 insertions(+), 7 deletions(-)

diff --git a/pkg/cache/restmapper.go b/pkg/cache/restmapper.go
index 9d16b4b..660f6c7 100644
--- a/pkg/cache/restmapper.go
+++ b/pkg/cache/restmapper.go
@@ -7,6 +7,8 @@ import (
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/client-go/discovery"
 	"k8s.io/client-go/restmapper"
+
+	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
 )
 
 var _ meta.RESTMapper = &CompositeRESTMapper{}
@@ -33,6 +35,9 @@ func NewCompositeRESTMapper(compositeDiscovery discovery.DiscoveryInterface) *Co
 
 	// Create view RESTMapper
 	viewMapper := NewViewRESTMapper()
+	if cd, ok := compositeDiscovery.(*CompositeDiscoveryClient); ok {
+		viewMapper.discovery = cd
+	}
 
 	return &CompositeRESTMapper{
 		viewMapper:   viewMapper,
@@ -140,5 +145,5 @@ func (m *CompositeRESTMapper) isViewGroup(group string) bool {
 		return cd.IsViewGroup(group)
 	}
 	// Fallback check
-	return group == "view.dcontroller.io"
+	return viewv1a1.IsViewGroup(group)
 }
diff --git a/pkg/cache/view_restmapper.go b/pkg/cache/view_restmapper.go
index b837b49..b55ecd0 100644
--- a/pkg/cache/view_restmapper.go
+++ b/pkg/cache/view_restmapper.go
@@ -13,7 +13,10 @@ import (
 var _ meta.RESTMapper = &ViewRESTMapper{}
 
 // ViewRESTMapper implements meta.RESTMapper for view resources.
-type ViewRESTMapper struct{}
+type ViewRESTMapper struct {
+	// discovery knows the registered views, may be nil.
+	discovery ViewDiscoveryInterface
+}
 
 // NewViewRESTMapper creates a new view REST mapper.
 func NewViewRESTMapper() *ViewRESTMapper {
@@ -22,16 +25,27 @@ func NewViewRESTMapper() *ViewRESTMapper {
 
 // KindFor returns the Kind for the given view resource.
 func (m *ViewRESTMapper) KindFor(resource schema.GroupVersionResource) (schema.GroupVersionKind, error) {
-	if viewv1a1.IsViewGroup(resource.Group) {
+	if !viewv1a1.IsViewGroup(resource.Group) {
 		return schema.GroupVersionKind{}, fmt.Errorf("not a view group: %s", resource.Group)
 	}
 
+	// The kind cannot be told from the resource name: prefer the registered views
+	if m.discovery != nil {
+		for _, gvk := range m.discovery.GetRegisteredViewGVKs() {
+			if gvk.Group == resource.Group &&
+				(resource.Version == "" || gvk.Version == resource.Version) &&
+				m.discovery.ResourceFromKind(gvk.Kind) == strings.ToLower(resource.Resource) {
+				return gvk, nil
+			}
+		}
+	}
+
 	// Convert resource name to Kind (title case)
 	kind := strings.Title(strings.ToLower(resource.Resource)) //nolint:staticcheck
 
 	return schema.GroupVersionKind{
 		Group:   resource.Group,
-		Version: resource.Version,
+		Version: versionOrDefault(resource.Version),
 		Kind:    kind,
 	}, nil
 }
@@ -47,14 +61,14 @@ func (m *ViewRESTMapper) KindsFor(resource schema.GroupVersionResource) ([]schem
 
 // ResourceFor returns the Resource for the given view input.
 func (m *ViewRESTMapper) ResourceFor(input schema.GroupVersionResource) (schema.GroupVersionResource, error) {
-	if viewv1a1.IsViewGroup(input.Group) {
+	if !viewv1a1.IsViewGroup(input.Group) {
 		return schema.GroupVersionResource{}, fmt.Errorf("not a view group: %s", input.Group)
 	}
 
 	// For views, resource names are lowercase kinds
 	return schema.GroupVersionResource{
 		Group:    input.Group,
-		Version:  input.Version,
+		Version:  versionOrDefault(input.Version),
 		Resource: strings.ToLower(input.Resource),
 	}, nil
 }
@@ -70,7 +84,7 @@ func (m *ViewRESTMapper) ResourcesFor(input schema.GroupVersionResource) ([]sche
 
 // RESTMapping returns the RESTMapping for the given view GroupKind.
 func (m *ViewRESTMapper) RESTMapping(gk schema.GroupKind, versions ...string) (*meta.RESTMapping, error) {
-	if viewv1a1.IsViewGroup(gk.Group) {
+	if !viewv1a1.IsViewGroup(gk.Group) {
 		return nil, fmt.Errorf("not a view group: %s", gk.Group)
 	}
 
@@ -113,3 +127,11 @@ func (m *ViewRESTMapper) ResourceSingularizer(resource string) (string, error) {
 	// For views, singular == plural (both lowercase kind)
 	return strings.ToLower(resource), nil
 }
+
+// versionOrDefault completes a missing version.
+func versionOrDefault(version string) string {
+	if version == "" {
+		return viewv1a1.Version
+	}
+	return version
+}
-- 
2.43.0


From a0c0a6077c2f4d5e7067c4da6de89b7bf2df6038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:30 +0000
Subject: [PATCH 29/57] fix: list each version of a view group once in
 discovery

Legacy discovery also forgot the registered views.
---
 pkg/cache/discovery.go      |  5 ++++-
 pkg/cache/view_discovery.go | 17 ++++++-----------
 2 files changed, 10 insertions(+), 12 deletions(-)

diff --git a/pkg/cache/discovery.go b/pkg/cache/discovery.go
index 99f325c..0418322 100644
--- a/pkg/cache/discovery.go
+++ b/pkg/cache/discovery.go
@@ -190,7 +190,10 @@ func (c *CompositeDiscoveryClient) OpenAPIV3() openapi.Client {
 // format.
 func (c *CompositeDiscoveryClient) WithLegacy() discovery.DiscoveryInterface {
 	if c.nativeDiscovery != nil {
-		return NewCompositeDiscoveryClient(c.nativeDiscovery.WithLegacy())
+		return &CompositeDiscoveryClient{
+			ViewDiscoveryInterface: c.ViewDiscoveryInterface,
+			nativeDiscovery:        c.nativeDiscovery.WithLegacy(),
+		}
 	}
 	// If no native discovery, return self (views don't have legacy concerns)
 	return c
diff --git a/pkg/cache/view_discovery.go b/pkg/cache/view_discovery.go
index 4e0511e..882b2de 100644
--- a/pkg/cache/view_discovery.go
+++ b/pkg/cache/view_discovery.go
@@ -2,6 +2,7 @@ package cache
 
 import (
 	"fmt"
+	"slices"
 	"strings"
 	"sync"
 
@@ -79,21 +80,15 @@ func (d *ViewDiscovery) ServerGroups() (*metav1.APIGroupList, error) {
 
 	for gvk := range d.registeredViews {
 		gv := gvk.GroupVersion()
-		if _, exists := groupVersions[gv.Group]; !exists {
-			groupVersions[gv.Group] = []metav1.GroupVersionForDiscovery{}
+		version := metav1.GroupVersionForDiscovery{
+			GroupVersion: gv.String(),
+			Version:      gv.Version,
 		}
 
 		// Check if this version already exists
-		for _, existing := range groupVersions[gv.Group] {
-			if existing.Version == gv.Version {
-				continue
-			}
+		if !slices.Contains(groupVersions[gv.Group], version) {
+			groupVersions[gv.Group] = append(groupVersions[gv.Group], version)
 		}
-
-		groupVersions[gv.Group] = append(groupVersions[gv.Group], metav1.GroupVersionForDiscovery{
-			GroupVersion: gv.String(),
-			Version:      gv.Version,
-		})
 	}
 
 	var groups metav1.APIGroupList
-- 
2.43.0


From 5af04bcfee5f4b3dff6e2ff9f89375b48a3a4154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:09 +0000
Subject: [PATCH 30/57] fix: refuse patches that change the identity of a view
 object

---
 pkg/cache/view_client.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index f3b1da0..14f918c 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -6,6 +6,7 @@ import (
 	"fmt"
 	"reflect"
 
+	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/api/meta"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
 	"k8s.io/apimachinery/pkg/runtime"
@@ -132,6 +133,13 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return err
 	}
 
+	// a patch must not turn an object into another one
+	if newObj.GroupVersionKind() != current.GroupVersionKind() ||
+		client.ObjectKeyFromObject(newObj) != client.ObjectKeyFromObject(current) {
+		return apierrors.NewBadRequest(fmt.Sprintf("cannot patch object with key %s: the type, the name and "+
+			"the namespace of an object cannot be changed", client.ObjectKeyFromObject(obj)))
+	}
+
 	return c.cache.Update(current, newObj)
 }
 
-- 
2.43.0


From 9e1efdb9fb36d3089781c65c325330bfa0bb6a98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:43 +0000
Subject: [PATCH 31/57] fix: serve the subresources of views from the view
 cache in the composite client

---
 pkg/cache/client.go | 42 +++++++++++++++++++++++++++++++++++++-----
 1 file changed, 37 insertions(+), 5 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index 21656aa..ee88c34 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -15,6 +15,8 @@ import (
 
 var _ client.Client = &CompositeClient{}
 
+var errNoNativeClient = errors.New("native Kubernetes resources unavailable: no native client")
+
 // CompositeClient is a controlller runtime client that uses a view cache to manage view resources
 // and delegates native resources to a default client.
 type CompositeClient struct {
@@ -143,10 +145,40 @@ func (c *CompositeClient) Watch(ctx context.Context, list client.ObjectList, opt
 // view-object client already writes the status if requested, but still needed because native
 // objects' status can only be updated via the status-writer
 func (c *CompositeClient) Status() client.SubResourceWriter {
-	return &compositeSubResourceClient{
-		viewSubResourceClient: c.viewClient.SubResource("status"),
-		SubResourceClient:     c.SubResource("status"),
+	return c.SubResource("status")
+}
+
+// SubResource returns a client for the given subresource: views are served from the view cache,
+// native Kubernetes resources from the native client.
+func (c *CompositeClient) SubResource(subResource string) client.SubResourceClient {
+	sr := &compositeSubResourceClient{
+		viewSubResourceClient: c.viewClient.SubResource(subResource),
+		SubResourceClient:     noSubResourceClient{},
+	}
+	if c.Client != nil {
+		sr.SubResourceClient = c.Client.SubResource(subResource)
 	}
+	return sr
+}
+
+// noSubResourceClient is the native subresource client of a composite client that has no native
+// client.
+type noSubResourceClient struct{}
+
+func (noSubResourceClient) Get(context.Context, client.Object, client.Object, ...client.SubResourceGetOption) error {
+	return errNoNativeClient
+}
+
+func (noSubResourceClient) Create(context.Context, client.Object, client.Object, ...client.SubResourceCreateOption) error {
+	return errNoNativeClient
+}
+
+func (noSubResourceClient) Update(context.Context, client.Object, ...client.SubResourceUpdateOption) error {
+	return errNoNativeClient
+}
+
+func (noSubResourceClient) Patch(context.Context, client.Object, client.Patch, ...client.SubResourcePatchOption) error {
+	return errNoNativeClient
 }
 
 // compositeSubResourceClient implements a status client.
@@ -157,7 +189,7 @@ type compositeSubResourceClient struct {
 
 // Get returns the status on the given obj.
 func (c *compositeSubResourceClient) Get(ctx context.Context, obj, subResource client.Object, opts ...client.SubResourceGetOption) error {
-	if viewv1a1.IsViewKind(subResource.GetObjectKind().GroupVersionKind()) {
+	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Get(ctx, obj, subResource, opts...)
 	}
 	return c.SubResourceClient.Get(ctx, obj, subResource, opts...)
@@ -165,7 +197,7 @@ func (c *compositeSubResourceClient) Get(ctx context.Context, obj, subResource c
 
 // Create saves the status on the given obj.
 func (c *compositeSubResourceClient) Create(ctx context.Context, obj client.Object, subResource client.Object, opts ...client.SubResourceCreateOption) error {
-	if viewv1a1.IsViewKind(subResource.GetObjectKind().GroupVersionKind()) {
+	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewSubResourceClient.Create(ctx, obj, subResource, opts...)
 	}
 	return c.SubResourceClient.Create(ctx, obj, subResource, opts...)
-- 
2.43.0


From f1df25015a33b5c97c02288d2f13073e867fa167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:16 +0000
Subject: [PATCH 32/57] fix: honour all list options in the view cache

---
 pkg/cache/view_cache.go  | 54 +++++++++-------------------------------
 pkg/cache/view_client.go | 21 +++-------------
 2 files changed, 16 insertions(+), 59 deletions(-)

diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index ce8d5e6..c32534e 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -454,25 +454,13 @@ func (c *ViewCache) List(ctx context.Context, list client.ObjectList, opts ...cl
 	c.log.V(5).Info("list", "listGVK", listGVK, "objGVK", objGVK)
 
 	// Extract selectors from options
-	var labelSelector labels.Selector
-	var fieldSelector fields.Selector
-	var namespace string
-
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.MatchingLabelsSelector:
-			labelSelector = o.Selector
-		case client.MatchingLabels:
-			set := (map[string]string)(o)
-			labelSelector = labels.SelectorFromSet(set)
-		case client.MatchingFields:
-			set := (fields.Set)(o)
-			fieldSelector = fields.SelectorFromSet(set)
-		case client.MatchingFieldsSelector:
-			fieldSelector = o.Selector
-		case client.InNamespace:
-			namespace = string(o)
-		}
+	listOpts := client.ListOptions{}
+	listOpts.ApplyOptions(opts)
+	labelSelector, fieldSelector, namespace := listOpts.LabelSelector, listOpts.FieldSelector, listOpts.Namespace
+
+	// Drop whatever the list contains
+	if l, ok := list.(object.ObjectList); ok {
+		l.Items = nil
 	}
 
 	for _, item := range cache.List() {
@@ -556,33 +544,15 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 	}
 
 	// Extract selectors from options (same logic as List method)
-	var labelSelector labels.Selector
-	var fieldSelector fields.Selector
-	var namespace string
-
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.MatchingLabelsSelector:
-			labelSelector = o.Selector
-		case client.MatchingLabels:
-			set := (map[string]string)(o)
-			labelSelector = labels.SelectorFromSet(set)
-		case client.MatchingFields:
-			set := (fields.Set)(o)
-			fieldSelector = fields.SelectorFromSet(set)
-		case client.MatchingFieldsSelector:
-			fieldSelector = o.Selector
-		case client.InNamespace:
-			namespace = string(o)
-		}
-	}
+	listOpts := client.ListOptions{}
+	listOpts.ApplyOptions(opts)
 
 	watcher := &ViewCacheWatcher{
 		eventChan:     make(chan watch.Event, DefaultWatchChannelBuffer),
 		stopCh:        make(chan struct{}),
-		labelSelector: labelSelector,
-		fieldSelector: fieldSelector,
-		namespace:     namespace,
+		labelSelector: listOpts.LabelSelector,
+		fieldSelector: listOpts.FieldSelector,
+		namespace:     listOpts.Namespace,
 		logger:        c.logger,
 	}
 
diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 14f918c..c7ba9d7 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -146,21 +146,8 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 // DeleteAllOf deletes all objects of the given type matching the given options.
 func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, opts ...client.DeleteAllOfOption) error {
 	// Convert delete options to list options
-	var listOpts []client.ListOption
-	for _, opt := range opts {
-		switch o := opt.(type) {
-		case client.InNamespace:
-			listOpts = append(listOpts, o)
-		case client.MatchingLabels:
-			listOpts = append(listOpts, o)
-		case client.MatchingFields:
-			listOpts = append(listOpts, o)
-		case client.MatchingLabelsSelector:
-			listOpts = append(listOpts, o)
-		case client.MatchingFieldsSelector:
-			listOpts = append(listOpts, o)
-		}
-	}
+	deleteOpts := client.DeleteAllOfOptions{}
+	deleteOpts.ApplyOptions(opts)
 
 	// List all matching objects
 	viewObj, ok := obj.(object.Object)
@@ -170,13 +157,13 @@ func (c *ViewCacheClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 
 	list := &unstructured.UnstructuredList{}
 	list.SetGroupVersionKind(NewViewDiscovery().ListGVKFromObjectGVK(viewObj.GroupVersionKind()))
-	if err := c.cache.List(ctx, list, listOpts...); err != nil {
+	if err := c.cache.List(ctx, list, &deleteOpts.ListOptions); err != nil {
 		return err
 	}
 
 	// Delete each object
 	for _, item := range list.Items {
-		if err := c.cache.Delete(&item); err != nil {
+		if err := client.IgnoreNotFound(c.cache.Delete(&item)); err != nil {
 			return err
 		}
 	}
-- 
2.43.0


From 565ba9d9986fef2c909d4ce19507bfb340e5b0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 33/57] fix: make view changes atomic and deliver their events
 in order

Handlers and watchers of the view cache were notified outside of the critical
section that changed the store, so concurrent writers could lose updates and
deliver events out of order, a handler added during a write could miss or
repeat an object, a slow watcher blocked or lost events, and callbacks that
call back into the cache deadlocked. Each view store now has a dispatcher: a
change and the decision who is to be told of it are one atomic step and the
notifications are delivered in that order.
---
 pkg/cache/delegating_view_cache.go |   5 +
 pkg/cache/dispatcher.go            |  75 ++++++++
 pkg/cache/view_cache.go            | 286 ++++++++++++++++++-----------
 pkg/cache/view_cache_informer.go   | 187 +++++++++++--------
 pkg/cache/view_client.go           | 147 ++++++++-------
 5 files changed, 448 insertions(+), 252 deletions(-)
 create mode 100644 pkg/cache/dispatcher.go

diff --git a/pkg/cache/delegating_view_cache.go b/pkg/cache/delegating_view_cache.go
index 4959b91..911698b 100644
--- a/pkg/cache/delegating_view_cache.go
+++ b/pkg/cache/delegating_view_cache.go
@@ -287,6 +287,11 @@ func (d *DelegatingViewCache) Update(oldObj, newObj object.Object) error {
 	return d.storage.Update(oldObj, newObj)
 }
 
+// modify atomically replaces an object in the shared storage.
+func (d *DelegatingViewCache) modify(gvk schema.GroupVersionKind, key client.ObjectKey, f func(obj object.Object) (object.Object, error)) error {
+	return d.storage.modify(gvk, key, f)
+}
+
 // Delete is not part of the cache.Cache interface, but we provide it for compatibility.
 // It delegates to shared storage.
 func (d *DelegatingViewCache) Delete(obj object.Object) error {
diff --git a/pkg/cache/dispatcher.go b/pkg/cache/dispatcher.go
new file mode 100644
index 0000000..27781ba
--- /dev/null
+++ b/pkg/cache/dispatcher.go
@@ -0,0 +1,75 @@
+package cache
+
+import (
+	"sync"
+
+	toolscache "k8s.io/client-go/tools/cache"
+)
+
+// viewStore is the store of the objects of a view type. It serializes the changes of the store and
+// delivers the events that report the changes in the order of the changes.
+type viewStore struct {
+	toolscache.Indexer
+	dispatcher
+}
+
+// dispatcher delivers events in order. Events are delivered without holding any lock, so event
+// handlers can safely use the cache.
+type dispatcher struct {
+	mutex    sync.Mutex
+	queue    []func()
+	draining bool
+}
+
+// newDispatcher returns the dispatcher that belongs to a store.
+func newDispatcher(indexer toolscache.Indexer) *dispatcher {
+	if store, ok := indexer.(*viewStore); ok {
+		return &store.dispatcher
+	}
+	return &dispatcher{}
+}
+
+// do performs a change and delivers the events the change enqueues. No other change is performed
+// meanwhile. If events are already being delivered (by another goroutine or by the caller, when
+// called from an event handler) then the new events are delivered after those.
+func (d *dispatcher) do(change func() error) error {
+	err := d.locked(change)
+	d.drain()
+	return err
+}
+
+func (d *dispatcher) locked(change func() error) error {
+	d.mutex.Lock()
+	defer d.mutex.Unlock()
+	return change()
+}
+
+// enqueue schedules the delivery of an event, must be called from a change.
+func (d *dispatcher) enqueue(event func()) {
+	d.queue = append(d.queue, event)
+}
+
+func (d *dispatcher) drain() {
+	d.mutex.Lock()
+	defer d.mutex.Unlock()
+
+	if d.draining {
+		return
+	}
+
+	d.draining = true
+	defer func() { d.draining = false }()
+
+	for len(d.queue) > 0 {
+		event := d.queue[0]
+		d.queue[0] = nil
+		d.queue = d.queue[1:]
+		d.unlocked(event)
+	}
+}
+
+func (d *dispatcher) unlocked(event func()) {
+	d.mutex.Unlock()
+	defer d.mutex.Lock()
+	event()
+}
diff --git a/pkg/cache/view_cache.go b/pkg/cache/view_cache.go
index c32534e..1e3f08d 100644
--- a/pkg/cache/view_cache.go
+++ b/pkg/cache/view_cache.go
@@ -5,7 +5,6 @@ import (
 	"errors"
 	"fmt"
 	"sync"
-	"time"
 
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
@@ -32,7 +31,7 @@ const DefaultWatchChannelBuffer = 256
 // views from any operator.
 type ViewCache struct {
 	mu        sync.RWMutex
-	caches    map[schema.GroupVersionKind]toolscache.Indexer
+	caches    map[schema.GroupVersionKind]*viewStore
 	informers map[schema.GroupVersionKind]*ViewCacheInformer
 	// delegatingInformers maintains a registry of informers from DelegatingViewCache instances.
 	// When shared storage triggers events via Add/Update/Delete, it propagates them to all
@@ -50,7 +49,7 @@ func NewViewCache(opts CacheOptions) *ViewCache {
 	}
 
 	c := &ViewCache{
-		caches:              make(map[schema.GroupVersionKind]toolscache.Indexer),
+		caches:              make(map[schema.GroupVersionKind]*viewStore),
 		informers:           make(map[schema.GroupVersionKind]*ViewCacheInformer),
 		delegatingInformers: make(map[schema.GroupVersionKind][]*ViewCacheInformer),
 		discovery:           NewViewDiscovery(),
@@ -81,13 +80,22 @@ func (c *ViewCache) RegisterCacheForKind(gvk schema.GroupVersionKind) error {
 		toolscache.Indexers{toolscache.NamespaceIndex: toolscache.MetaNamespaceIndexFunc},
 	)
 
-	c.caches[gvk] = indexer
+	c.caches[gvk] = &viewStore{Indexer: indexer}
 
 	return nil
 }
 
 // GetCacheForKind returns the internal cache for a given GVK.
 func (c *ViewCache) GetCacheForKind(gvk schema.GroupVersionKind) (toolscache.Indexer, error) {
+	store, err := c.getStore(gvk)
+	if err != nil {
+		return nil, err
+	}
+	return store, nil
+}
+
+// getStore returns the store of a given GVK.
+func (c *ViewCache) getStore(gvk schema.GroupVersionKind) (*viewStore, error) {
 	if !viewv1a1.IsViewKind(gvk) {
 		return nil, fmt.Errorf("not a view GVK: %s", gvk)
 	}
@@ -167,15 +175,14 @@ func (c *ViewCache) UnregisterDelegatingInformer(gvk schema.GroupVersionKind, in
 	c.mu.Lock()
 	defer c.mu.Unlock()
 
-	informers := c.delegatingInformers[gvk]
-	for i, inf := range informers {
-		if inf == informer {
-			// Remove by replacing with last element and truncating
-			c.delegatingInformers[gvk][i] = c.delegatingInformers[gvk][len(c.delegatingInformers[gvk])-1]
-			c.delegatingInformers[gvk] = c.delegatingInformers[gvk][:len(c.delegatingInformers[gvk])-1]
-			break
+	// Do not modify the list in place: events may be being sent on it
+	informers := []*ViewCacheInformer{}
+	for _, inf := range c.delegatingInformers[gvk] {
+		if inf != informer {
+			informers = append(informers, inf)
 		}
 	}
+	c.delegatingInformers[gvk] = informers
 
 	return nil
 }
@@ -221,17 +228,95 @@ func (c *ViewCache) GetInformerForKind(ctx context.Context, gvk schema.GroupVers
 func (c *ViewCache) RemoveInformer(ctx context.Context, obj client.Object) error {
 	gvk := obj.GetObjectKind().GroupVersionKind()
 
+	c.mu.Lock()
+	defer c.mu.Unlock()
+
+	delete(c.informers, gvk)
+
+	return nil
+}
+
+// notify schedules an event on the shared informer and all delegating informers of a GVK, must be
+// called from a change of the store.
+func (c *ViewCache) notify(gvk schema.GroupVersionKind, eventType toolscache.DeltaType, oldObj, newObj object.Object) {
 	c.mu.RLock()
-	_, exists := c.informers[gvk]
+	informer, delegatingInfs := c.informers[gvk], c.delegatingInformers[gvk]
 	c.mu.RUnlock()
 
-	if exists {
-		delete(c.informers, gvk)
+	if informer != nil {
+		informer.enqueueEvent(eventType, oldObj, newObj, false)
 	}
 
+	for _, dinf := range delegatingInfs {
+		dinf.enqueueEvent(eventType, oldObj, newObj, false)
+	}
+}
+
+// set stores an object and schedules the corresponding event, must be called from a change of the
+// store. The object must not be modified afterwards.
+func (c *ViewCache) set(store *viewStore, obj object.Object) error {
+	gvk := obj.GetObjectKind().GroupVersionKind()
+
+	item, exists, err := store.Get(obj)
+	if err != nil {
+		return err
+	}
+
+	if !exists {
+		if err := store.Add(obj); err != nil {
+			return err
+		}
+		c.notify(gvk, toolscache.Added, nil, obj)
+		return nil
+	}
+
+	oldObj := item.(object.Object)
+	if object.DeepEqual(oldObj, obj) {
+		c.log.V(4).Info("update: suppressing object update", "gvk", gvk,
+			"key", client.ObjectKeyFromObject(obj).String())
+		return nil
+	}
+
+	if err := store.Update(obj); err != nil {
+		return err
+	}
+	c.notify(gvk, toolscache.Updated, oldObj, obj)
+
 	return nil
 }
 
+// modify atomically replaces an object with the result of a function. The function receives the
+// current object or nil if there is none, which it must not modify, and it may return nil to leave
+// the object as it is.
+func (c *ViewCache) modify(gvk schema.GroupVersionKind, key client.ObjectKey, f func(obj object.Object) (object.Object, error)) error {
+	store, err := c.getStore(gvk)
+	if err != nil {
+		return err
+	}
+
+	return store.do(func() error {
+		item, exists, err := store.GetByKey(clientKeyToCacheKey(key).String())
+		if err != nil {
+			return err
+		}
+
+		var current object.Object
+		if exists {
+			current = item.(object.Object)
+		}
+
+		newObj, err := f(current)
+		if err != nil || newObj == nil {
+			return err
+		}
+
+		newObj = object.DeepCopy(newObj)
+		object.WithUID(newObj)
+
+		return c.set(store, newObj)
+	})
+}
+
 // Add inserts an object into the cache.
 func (c *ViewCache) Add(obj object.Object) error {
 	gvk := obj.GetObjectKind().GroupVersionKind()
@@ -243,7 +328,7 @@ func (c *ViewCache) Add(obj object.Object) error {
 	c.log.V(5).Info("add", "gvk", gvk, "key", client.ObjectKeyFromObject(obj).String(),
 		"object", object.Dump(obj))
 
-	cache, err := c.GetCacheForKind(gvk)
+	store, err := c.getStore(gvk)
 	if err != nil {
 		return err
 	}
@@ -254,33 +339,20 @@ func (c *ViewCache) Add(obj object.Object) error {
 	// Make sure to have a valid UID.
 	object.WithUID(obj)
 
-	// Add object to the cache.
-	if err := cache.Add(obj); err != nil {
-		return err
-	}
-
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
-	if err != nil {
-		return err
-	}
+	return store.do(func() error {
+		if err := store.Add(obj); err != nil {
+			return err
+		}
 
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Added, nil, obj, false)
+		c.notify(gvk, toolscache.Added, nil, obj)
 
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
-
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Added, nil, obj, false)
-	}
-
-	return nil
+		return nil
+	})
 }
 
-// Update modifies the object stored in the cache.
-func (c *ViewCache) Update(oldObj, newObj object.Object) error {
+// Update modifies the object stored in the cache. The change is reported relative to the object in
+// the cache, which is not necessarily the old object given by the caller.
+func (c *ViewCache) Update(_, newObj object.Object) error {
 	// The cache does not apply deepcopy to stored objects.
 	newObj = object.DeepCopy(newObj)
 
@@ -292,42 +364,15 @@ func (c *ViewCache) Update(oldObj, newObj object.Object) error {
 		return fmt.Errorf("not a view GVK: %s", gvk)
 	}
 
-	if object.DeepEqual(oldObj, newObj) {
-		c.log.V(4).Info("update: suppressing object update", "gvk", gvk,
-			"key", client.ObjectKeyFromObject(newObj).String())
-		return nil
-	}
-
 	c.log.V(5).Info("update", "gvk", gvk, "key", client.ObjectKeyFromObject(newObj).String(),
 		"object", object.Dump(newObj))
 
-	cache, err := c.GetCacheForKind(gvk)
-	if err != nil {
-		return err
-	}
-
-	if err := cache.Update(newObj); err != nil {
-		return err
-	}
-
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
+	store, err := c.getStore(gvk)
 	if err != nil {
 		return err
 	}
 
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Updated, oldObj, newObj, false)
-
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
-
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Updated, oldObj, newObj, false)
-	}
-
-	return nil
+	return store.do(func() error { return c.set(store, newObj) })
 }
 
 // Delete removes an object from the cache.
@@ -341,7 +386,7 @@ func (c *ViewCache) Delete(obj object.Object) error {
 	c.log.V(5).Info("delete", "gvk", gvk, "key", client.ObjectKeyFromObject(obj).String(),
 		"object", object.Dump(obj))
 
-	cache, err := c.GetCacheForKind(gvk)
+	store, err := c.getStore(gvk)
 	if err != nil {
 		return err
 	}
@@ -356,39 +401,26 @@ func (c *ViewCache) Delete(obj object.Object) error {
 		return err
 	}
 
-	existingObj, exists, err := cache.GetByKey(key)
-	if err != nil {
-		return err
-	}
-	if !exists {
-		return apierrors.NewNotFound(schema.GroupResource{
-			Group:    obj.GetObjectKind().GroupVersionKind().Group,
-			Resource: obj.GetObjectKind().GroupVersionKind().Kind,
-		}, key)
-	}
-
-	if err := cache.Delete(existingObj); err != nil {
-		return err
-	}
-
-	informer, err := c.GetInformerForKind(context.Background(), gvk)
-	if err != nil {
-		return err
-	}
-
-	// Trigger event on shared informer
-	informer.(*ViewCacheInformer).TriggerEvent(toolscache.Deleted, nil, existingObj.(object.Object), false)
+	return store.do(func() error {
+		existingObj, exists, err := store.GetByKey(key)
+		if err != nil {
+			return err
+		}
+		if !exists {
+			return apierrors.NewNotFound(schema.GroupResource{
+				Group:    obj.GetObjectKind().GroupVersionKind().Group,
+				Resource: obj.GetObjectKind().GroupVersionKind().Kind,
+			}, key)
+		}
 
-	// Also trigger event on all delegating informers
-	c.mu.RLock()
-	delegatingInfs := c.delegatingInformers[gvk]
-	c.mu.RUnlock()
+		if err := store.Delete(existingObj); err != nil {
+			return err
+		}
 
-	for _, dinf := range delegatingInfs {
-		dinf.TriggerEvent(toolscache.Deleted, nil, existingObj.(object.Object), false)
-	}
+		c.notify(gvk, toolscache.Deleted, nil, existingObj.(object.Object))
 
-	return nil
+		return nil
+	})
 }
 
 // IndexField adds an index with the given field name on the given object type.
@@ -550,6 +582,7 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 	watcher := &ViewCacheWatcher{
 		eventChan:     make(chan watch.Event, DefaultWatchChannelBuffer),
 		stopCh:        make(chan struct{}),
+		wakeCh:        make(chan struct{}, 1),
 		labelSelector: listOpts.LabelSelector,
 		fieldSelector: listOpts.FieldSelector,
 		namespace:     listOpts.Namespace,
@@ -563,9 +596,13 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 			}
 		},
 		UpdateFunc: func(oldObj, newObj any) {
-			// Check if object matches selectors after update
-			if watcher.shouldIncludeObject(newObj) {
+			// An update may make the object cease to match the selectors
+			was, is := watcher.shouldIncludeObject(oldObj), watcher.shouldIncludeObject(newObj)
+			switch {
+			case is:
 				watcher.sendEvent(watch.Modified, newObj)
+			case was:
+				watcher.sendEvent(watch.Deleted, oldObj)
 			}
 		},
 		DeleteFunc: func(obj any) {
@@ -582,8 +619,13 @@ func (c *ViewCache) Watch(ctx context.Context, list client.ObjectList, opts ...c
 		return nil, fmt.Errorf("failed to add event handler: %w", err)
 	}
 
+	go watcher.run()
+
 	go func() {
-		<-ctx.Done()
+		select {
+		case <-ctx.Done():
+		case <-watcher.stopCh:
+		}
 
 		c.log.V(5).Info("stopping watcher", "gvk", objGVK.String())
 
@@ -620,7 +662,9 @@ var _ watch.Interface = &ViewCacheWatcher{}
 type ViewCacheWatcher struct {
 	eventChan chan watch.Event
 	stopCh    chan struct{}
+	wakeCh    chan struct{}
 	mutex     sync.Mutex
+	queue     []watch.Event // events not yet sent on the event channel
 	stopped   bool
 
 	labelSelector labels.Selector
@@ -676,7 +720,7 @@ func (w *ViewCacheWatcher) matchesFieldSelector(obj object.Object, selector fiel
 	return selector.Matches(fieldSet)
 }
 
-// sendEvent sends a watch event on the event channel.
+// sendEvent queues a watch event for the event channel.
 func (w *ViewCacheWatcher) sendEvent(eventType watch.EventType, o any) {
 	obj, ok := o.(object.Object)
 	if !ok {
@@ -691,15 +735,40 @@ func (w *ViewCacheWatcher) sendEvent(eventType watch.EventType, o any) {
 		return
 	}
 
-	event := watch.Event{Type: eventType, Object: obj}
-
 	w.logger.V(8).Info("watcher sending object", "object", object.Dump(obj))
 
+	w.queue = append(w.queue, watch.Event{Type: eventType, Object: obj})
+
 	select {
-	case w.eventChan <- event:
-	case <-time.After(time.Second):
-		// If we can't send the event in 1 second, log and continue
-		w.logger.Info("failed to send event, channel might be full", "event", event)
+	case w.wakeCh <- struct{}{}:
+	default:
+	}
+}
+
+// run sends the queued events on the event channel until the watcher is stopped. The queue decouples
+// the writers of the cache from slow watchers.
+func (w *ViewCacheWatcher) run() {
+	defer close(w.eventChan)
+
+	for {
+		w.mutex.Lock()
+		events := w.queue
+		w.queue = nil
+		w.mutex.Unlock()
+
+		for _, event := range events {
+			select {
+			case w.eventChan <- event:
+			case <-w.stopCh:
+				return
+			}
+		}
+
+		select {
+		case <-w.wakeCh:
+		case <-w.stopCh:
+			return
+		}
 	}
 }
 
@@ -711,7 +780,6 @@ func (w *ViewCacheWatcher) Stop() {
 	if !w.stopped {
 		w.stopped = true
 		close(w.stopCh)
-		close(w.eventChan)
 	}
 }
 
diff --git a/pkg/cache/view_cache_informer.go b/pkg/cache/view_cache_informer.go
index 0e6bde1..701e7d2 100644
--- a/pkg/cache/view_cache_informer.go
+++ b/pkg/cache/view_cache_informer.go
@@ -22,7 +22,8 @@ var _ toolscache.SharedIndexInformer = &ViewCacheInformer{}
 type ViewCacheInformer struct {
 	gvk            schema.GroupVersionKind // just for logging
 	cache          toolscache.Indexer
-	handlers       map[int64]handlerEntry
+	dispatcher     *dispatcher
+	handlers       map[int64]*handlerEntry
 	handlerCounter int64
 	mutex          sync.RWMutex
 	transform      toolscache.TransformFunc
@@ -33,12 +34,13 @@ type ViewCacheInformer struct {
 // handlerEntry defines a handler.
 type handlerEntry struct {
 	toolscache.ResourceEventHandler
-	id int64
+	id              int64
+	synced, removed atomic.Bool
 }
 
-// HasSynced return true if the informers underlying store has synced.
+// HasSynced return true if the handler has received the initial object list.
 func (h *handlerEntry) HasSynced() bool {
-	return true
+	return h.synced.Load()
 }
 
 // NewViewCacheInformer returns a new informer for the view cache.
@@ -48,60 +50,57 @@ func NewViewCacheInformer(gvk schema.GroupVersionKind, indexer toolscache.Indexe
 	}
 
 	return &ViewCacheInformer{
-		gvk:      gvk,
-		cache:    indexer,
-		handlers: make(map[int64]handlerEntry),
-		log:      logger.WithValues("GVK", gvk.String()),
+		gvk:        gvk,
+		cache:      indexer,
+		dispatcher: newDispatcher(indexer),
+		handlers:   make(map[int64]*handlerEntry),
+		log:        logger.WithValues("GVK", gvk.String()),
 	}
 }
 
 // Implement the cache.Informer interface.
 
-// AddEventHandler adds an event handler to the shared informer.
+// AddEventHandler adds an event handler to the shared informer. The handler receives the objects
+// in the cache at the time of the call, followed by the events of all later changes in order.
 func (c *ViewCacheInformer) AddEventHandler(handler toolscache.ResourceEventHandler) (toolscache.ResourceEventHandlerRegistration, error) {
-	c.mutex.Lock()
-
-	id := atomic.AddInt64(&c.handlerCounter, 1)
-	he := handlerEntry{
-		ResourceEventHandler: handler,
-		id:                   id,
-	}
-	c.handlers[id] = he
-	c.mutex.Unlock()
-
-	c.log.V(4).Info("registering event handler: sending initial object list", "handler-id", id,
-		"cache-size", len(c.cache.List()))
+	he := &handlerEntry{ResourceEventHandler: handler}
 
-	// Send initial events to the newly registered handler
-	for _, item := range c.cache.List() {
-		obj, ok := item.(object.Object)
-		if !ok {
-			return nil, apierrors.NewInternalError(errors.New("cache must store object.Objects only"))
+	err := c.dispatcher.do(func() error {
+		items := c.cache.List()
+		for _, item := range items {
+			if _, ok := item.(object.Object); !ok {
+				return apierrors.NewInternalError(errors.New("cache must store object.Objects only"))
+			}
 		}
 
-		// Apply transform if needed (same logic as TriggerEvent)
-		newObj := obj
-		if c.transform != nil {
-			newObj = object.DeepCopy(newObj)
-			item, err := c.transform(newObj)
-			if err != nil {
-				c.log.Error(err, "Failed to transform object during initial sync")
-				continue
+		c.mutex.Lock()
+		c.handlerCounter++
+		he.id = c.handlerCounter
+		c.handlers[he.id] = he
+		transform := c.transform
+		c.mutex.Unlock()
+
+		c.log.V(4).Info("registering event handler: sending initial object list", "handler-id", he.id,
+			"cache-size", len(items))
+
+		// Send initial events to the newly registered handler
+		c.dispatcher.enqueue(func() {
+			for _, item := range items {
+				// Apply transform if needed (same logic as TriggerEvent)
+				if obj := c.transformed(transform, item.(object.Object)); obj != nil {
+					c.deliver(he, toolscache.Added, nil, obj, true)
+				}
 			}
+			he.synced.Store(true)
+		})
 
-			var ok bool
-			newObj, ok = item.(object.Object)
-			if !ok {
-				c.log.Info("transform must produce an object.Object during initial sync")
-				continue
-			}
-		}
-
-		// Send to the newly registered handler
-		handler.OnAdd(object.DeepCopy(newObj), true)
+		return nil
+	})
+	if err != nil {
+		return nil, err
 	}
 
-	return &he, nil
+	return he, nil
 }
 
 // AddEventHandlerWithResyncPeriod adds an event handler to the shared informer informer using the
@@ -126,6 +125,7 @@ func (c *ViewCacheInformer) RemoveEventHandler(registration toolscache.ResourceE
 
 	if reg, ok := registration.(*handlerEntry); ok {
 		c.log.V(4).Info("removing  event handler: ready", "handler-id", reg.id)
+		reg.removed.Store(true)
 		delete(c.handlers, reg.id)
 		return nil
 	}
@@ -137,55 +137,86 @@ func (c *ViewCacheInformer) RemoveEventHandler(registration toolscache.ResourceE
 // isInitialList to true if event is an Added as a part of the initial object list. For all event
 // types except Update events the oldObj must not be nil.
 func (c *ViewCacheInformer) TriggerEvent(eventType toolscache.DeltaType, oldObj, newObj object.Object, isInitialList bool) {
+	_ = c.dispatcher.do(func() error {
+		c.enqueueEvent(eventType, oldObj, newObj, isInitialList)
+		return nil
+	})
+}
+
+// enqueueEvent schedules an event for the handlers registered at the time of the call, must be
+// called from a change of the dispatcher.
+func (c *ViewCacheInformer) enqueueEvent(eventType toolscache.DeltaType, oldObj, newObj object.Object, isInitialList bool) {
+	c.mutex.RLock()
+	defer c.mutex.RUnlock()
+
 	if len(c.handlers) == 0 {
 		c.log.V(4).Info("suppressing event trigger: no handlers", "event", eventType,
 			"object", object.Dump(newObj))
 		return
 	}
 
-	c.mutex.RLock()
-	defer c.mutex.RUnlock()
-
 	c.log.V(8).Info("triggering event", "event", eventType, "object", object.Dump(newObj),
 		"isInitial", isInitialList)
 
-	if c.transform != nil {
-		newObj = object.DeepCopy(newObj)
+	handlers := make([]*handlerEntry, 0, len(c.handlers))
+	for _, handler := range c.handlers {
+		handlers = append(handlers, handler)
+	}
+	transform := c.transform
 
-		item, err := c.transform(newObj)
-		if err != nil {
-			c.log.Error(err, "Failed to transform object")
+	c.dispatcher.enqueue(func() {
+		obj := c.transformed(transform, newObj)
+		if obj == nil {
 			return
 		}
-
-		var ok bool
-		newObj, ok = item.(object.Object)
-		if !ok {
-			c.log.Info("transform must produce an object.Object")
-			return
+		for _, handler := range handlers {
+			c.deliver(handler, eventType, oldObj, obj, isInitialList)
 		}
+	})
+}
 
-		c.log.V(4).Info("trigger-event: transformer ready", "object", object.Dump(newObj))
+// transformed applies a transformer to an object. It returns nil if the object cannot be
+// transformed.
+func (c *ViewCacheInformer) transformed(transform toolscache.TransformFunc, obj object.Object) object.Object {
+	if transform == nil {
+		return obj
 	}
 
-	events := 0
-	for _, handler := range c.handlers {
-		c.log.V(8).Info("trigger-event: sending event to handler", "event", eventType,
-			"object", object.Dump(newObj), "handler-id", handler.id)
-
-		switch eventType {
-		case toolscache.Added:
-			handler.OnAdd(object.DeepCopy(newObj), false)
-			events++
-		case toolscache.Updated:
-			handler.OnUpdate(oldObj, object.DeepCopy(newObj))
-			events++
-		case toolscache.Deleted:
-			handler.OnDelete(object.DeepCopy(newObj))
-			events++
-		default:
-			c.log.V(4).Info("trigger-event: ignoring event", "event", eventType)
-		}
+	item, err := transform(object.DeepCopy(obj))
+	if err != nil {
+		c.log.Error(err, "Failed to transform object")
+		return nil
+	}
+
+	newObj, ok := item.(object.Object)
+	if !ok {
+		c.log.Info("transform must produce an object.Object")
+		return nil
+	}
+
+	c.log.V(4).Info("trigger-event: transformer ready", "object", object.Dump(newObj))
+
+	return newObj
+}
+
+// deliver passes an event to a handler. Handlers receive their own copy of the objects.
+func (c *ViewCacheInformer) deliver(handler *handlerEntry, eventType toolscache.DeltaType, oldObj, newObj object.Object, isInitialList bool) {
+	if handler.removed.Load() {
+		return
+	}
+
+	c.log.V(8).Info("trigger-event: sending event to handler", "event", eventType,
+		"object", object.Dump(newObj), "handler-id", handler.id)
+
+	switch eventType {
+	case toolscache.Added:
+		handler.OnAdd(object.DeepCopy(newObj), isInitialList)
+	case toolscache.Updated:
+		handler.OnUpdate(object.DeepCopy(oldObj), object.DeepCopy(newObj))
+	case toolscache.Deleted:
+		handler.OnDelete(object.DeepCopy(newObj))
+	default:
+		c.log.V(4).Info("trigger-event: ignoring event", "event", eventType)
 	}
 }
 
diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index c7ba9d7..20607f8 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -4,7 +4,6 @@ import (
 	"context"
 	"errors"
 	"fmt"
-	"reflect"
 
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/api/meta"
@@ -64,7 +63,9 @@ func (c *ViewCacheClient) Create(ctx context.Context, obj client.Object, opts ..
 	if !ok {
 		return fmt.Errorf("object must implement object.Object interface")
 	}
-	return c.cache.Add(viewObj)
+
+	// replace the object if it exists
+	return c.modify(ctx, viewObj, func(_ object.Object) (object.Object, error) { return viewObj, nil })
 }
 
 // Delete deletes the given obj from the ViewCache.
@@ -83,25 +84,12 @@ func (c *ViewCacheClient) Update(ctx context.Context, obj client.Object, opts ..
 		return fmt.Errorf("object must implement object.Object interface")
 	}
 
-	// For updates, we need to get the old object first
-	oldObj := emptyViewObject(newObj.GroupVersionKind())
-	object.SetName(oldObj, newObj.GetNamespace(), newObj.GetName())
-
-	// Get the current version from cache
-	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(newObj), oldObj); err != nil {
-		return fmt.Errorf("cannot update object with key %s: %w", client.ObjectKeyFromObject(newObj), err)
-	}
-
-	// Option 3: DeepEqual check is safe here for view objects.
-	// View objects are ephemeral in-memory objects without etcd-based optimistic concurrency
-	// control, so there's no resourceVersion staleness to mask. The cache.Update() call
-	// already has a DeepEqual check (line 295 in view_cache.go), but checking here avoids
-	// unnecessary work when content hasn't changed.
-	if object.DeepEqual(oldObj, newObj) {
-		return nil
-	}
-
-	return c.cache.Update(oldObj, newObj)
+	return c.modify(ctx, newObj, func(current object.Object) (object.Object, error) {
+		if current == nil {
+			return nil, fmt.Errorf("cannot update object with key %s: %w", client.ObjectKeyFromObject(newObj), notFound(newObj))
+		}
+		return newObj, nil
+	})
 }
 
 // Patch patches the given obj in the ViewCache. Note that obj is NOT updated to the new content.
@@ -111,12 +99,6 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return errors.New("object must be an object.Object")
 	}
 
-	// Get current object
-	current := emptyViewObject(o.GroupVersionKind())
-	if err := c.cache.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj), err)
-	}
-
 	// strategic merge patch not supported in views, falling back to merge-patch
 	j, err := patch.Data(obj)
 	if err != nil {
@@ -128,19 +110,25 @@ func (c *ViewCacheClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return fmt.Errorf("cannot parse JSON patch: %w", err)
 	}
 
-	newObj := object.DeepCopy(current)
-	if err := object.Patch(newObj, newContent); err != nil {
-		return err
-	}
+	return c.modify(ctx, o, func(current object.Object) (object.Object, error) {
+		if current == nil {
+			return nil, fmt.Errorf("cannot patch object with key %s: %w", client.ObjectKeyFromObject(obj), notFound(o))
+		}
 
-	// a patch must not turn an object into another one
-	if newObj.GroupVersionKind() != current.GroupVersionKind() ||
-		client.ObjectKeyFromObject(newObj) != client.ObjectKeyFromObject(current) {
-		return apierrors.NewBadRequest(fmt.Sprintf("cannot patch object with key %s: the type, the name and "+
-			"the namespace of an object cannot be changed", client.ObjectKeyFromObject(obj)))
-	}
+		newObj := object.DeepCopy(current)
+		if err := object.Patch(newObj, newContent); err != nil {
+			return nil, err
+		}
 
-	return c.cache.Update(current, newObj)
+		// a patch must not turn an object into another one
+		if newObj.GroupVersionKind() != current.GroupVersionKind() ||
+			client.ObjectKeyFromObject(newObj) != client.ObjectKeyFromObject(current) {
+			return nil, apierrors.NewBadRequest(fmt.Sprintf("cannot patch object with key %s: the type, the name and "+
+				"the namespace of an object cannot be changed", client.ObjectKeyFromObject(obj)))
+		}
+
+		return newObj, nil
+	})
 }
 
 // DeleteAllOf deletes all objects of the given type matching the given options.
@@ -274,16 +262,7 @@ func (sr *viewSubResourceClient) Create(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	current := emptyViewObject(o.GroupVersionKind())
-	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return err
-	}
-
-	if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
-		return fmt.Errorf("failed to set sub-resource %s to sub-resource: %w", sr.subres, err)
-	}
-
-	return sr.client.Update(ctx, current)
+	return sr.set(ctx, o, sub)
 }
 
 // Update updates the subresource for the given object.
@@ -293,11 +272,6 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("object must be an object.Object")
 	}
 
-	current := emptyViewObject(o.GroupVersionKind())
-	if err := sr.client.Get(ctx, client.ObjectKeyFromObject(obj), current); err != nil {
-		return err
-	}
-
 	sub, ok, err := unstructured.NestedMap(o.UnstructuredContent(), sr.subres)
 	if err != nil {
 		return fmt.Errorf("cannot load %s sub-resource: %w", sr.subres, err)
@@ -305,20 +279,24 @@ func (sr *viewSubResourceClient) Update(ctx context.Context, obj client.Object,
 		return errors.New("no status sub-resource in object argument")
 	}
 
-	// Option 2: Check if the subresource actually changed before updating.
-	// This prevents triggering watch events when the status hasn't changed.
-	currentSub, currentHasSub, _ := unstructured.NestedMap(current.UnstructuredContent(), sr.subres)
-	if currentHasSub && reflect.DeepEqual(currentSub, sub) {
-		// Subresource unchanged, skip the update
-		return nil
-	}
+	return sr.set(ctx, o, sub)
+}
 
-	if err := unstructured.SetNestedMap(current.UnstructuredContent(), sub, sr.subres); err != nil {
-		return fmt.Errorf("cannot set sub-resource %s: %w", sr.subres, err)
-	}
+// set sets the subresource of an object. For ViewCache, status is just part of the object: replace
+// it in the current object and update the whole object.
+func (sr *viewSubResourceClient) set(ctx context.Context, obj object.Object, sub map[string]any) error {
+	return sr.client.modify(ctx, obj, func(current object.Object) (object.Object, error) {
+		if current == nil {
+			return nil, notFound(obj)
+		}
 
-	// For ViewCache, status is just part of the object - update the whole object
-	return sr.client.Update(ctx, current)
+		newObj := object.DeepCopy(current)
+		if err := unstructured.SetNestedMap(newObj.UnstructuredContent(), sub, sr.subres); err != nil {
+			return nil, fmt.Errorf("cannot set sub-resource %s: %w", sr.subres, err)
+		}
+
+		return newObj, nil
+	})
 }
 
 // Patch patches the subresource for the given object.
@@ -327,6 +305,45 @@ func (sr *viewSubResourceClient) Patch(ctx context.Context, obj client.Object, p
 	return sr.client.Patch(ctx, obj, patch)
 }
 
+// atomicModifier is implemented by the caches that can atomically modify an object.
+type atomicModifier interface {
+	modify(gvk schema.GroupVersionKind, key client.ObjectKey, f func(obj object.Object) (object.Object, error)) error
+}
+
+// modify replaces the object in the cache with the result of a function, which receives the current
+// object or nil if there is none. The modification is atomic if supported by the cache.
+func (c *ViewCacheClient) modify(ctx context.Context, obj object.Object, f func(current object.Object) (object.Object, error)) error {
+	gvk, key := obj.GroupVersionKind(), client.ObjectKeyFromObject(obj)
+
+	if cache, ok := c.cache.(atomicModifier); ok {
+		return cache.modify(gvk, key, f)
+	}
+
+	current := emptyViewObject(gvk)
+	if err := c.cache.Get(ctx, key, current); apierrors.IsNotFound(err) {
+		current = nil
+	} else if err != nil {
+		return err
+	}
+
+	newObj, err := f(current)
+	if err != nil || newObj == nil {
+		return err
+	}
+
+	if current == nil {
+		return c.cache.Add(newObj)
+	}
+	return c.cache.Update(current, newObj)
+}
+
+// notFound returns the error for an object that is not in the cache.
+func notFound(obj object.Object) error {
+	gvk := obj.GroupVersionKind()
+	return apierrors.NewNotFound(schema.GroupResource{Group: gvk.Group, Resource: gvk.Kind},
+		client.ObjectKeyFromObject(obj).String())
+}
+
 // emptyViewObject creates an empty view object of the given type.
 func emptyViewObject(gvk schema.GroupVersionKind) object.Object {
 	obj := object.New()
-- 
2.43.0


From 3ec69d24060f9c84a7a7cc0b419e1e5f37d5de2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:29 +0000
Subject: [PATCH 34/57] fix: do not crash on native resources when there is no
 native client or cache

Also give the composite client a view client when its cache is a view cache.
---
 pkg/cache/client.go    | 20 +++++++++++++++++++-
 pkg/cache/composite.go | 23 ++++++++++++++++++++++-
 2 files changed, 41 insertions(+), 2 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index ee88c34..8369c9e 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -68,8 +68,11 @@ func (c *CompositeClient) SetClient(client client.Client) {
 // SetCache sets the cache for the composite client.
 func (c *CompositeClient) SetCache(cache Cache) {
 	c.compositeCache = cache
-	if viewCache, ok := cache.(*CompositeCache); ok {
+	switch viewCache := cache.(type) {
+	case *CompositeCache:
 		c.viewClient = viewCache.GetViewCache().GetClient().(*ViewCacheClient)
+	case ViewCacheInterface:
+		c.viewClient = viewCache.GetClient().(*ViewCacheClient)
 	}
 }
 
@@ -87,6 +90,9 @@ func (c *CompositeClient) Create(ctx context.Context, obj client.Object, opts ..
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.Create(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.Create(ctx, obj, opts...)
 }
 
@@ -95,6 +101,9 @@ func (c *CompositeClient) Delete(ctx context.Context, obj client.Object, opts ..
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.Delete(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.Delete(ctx, obj, opts...)
 }
 
@@ -103,6 +112,9 @@ func (c *CompositeClient) Update(ctx context.Context, obj client.Object, opts ..
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.Update(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.Update(ctx, obj, opts...)
 }
 
@@ -112,6 +124,9 @@ func (c *CompositeClient) Patch(ctx context.Context, obj client.Object, patch cl
 		return c.viewClient.Patch(ctx, obj, patch, opts...)
 	}
 
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.Patch(ctx, obj, patch, opts...)
 }
 
@@ -120,6 +135,9 @@ func (c *CompositeClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 	if viewv1a1.IsViewKind(obj.GetObjectKind().GroupVersionKind()) {
 		return c.viewClient.DeleteAllOf(ctx, obj, opts...)
 	}
+	if c.Client == nil {
+		return errNoNativeClient
+	}
 	return c.Client.DeleteAllOf(ctx, obj, opts...)
 }
 
diff --git a/pkg/cache/composite.go b/pkg/cache/composite.go
index 18ae627..ba04505 100644
--- a/pkg/cache/composite.go
+++ b/pkg/cache/composite.go
@@ -2,6 +2,7 @@ package cache
 
 import (
 	"context"
+	"errors"
 
 	"github.com/go-logr/logr"
 	"k8s.io/apimachinery/pkg/runtime/schema"
@@ -14,6 +15,8 @@ import (
 
 var _ cache.Cache = &CompositeCache{}
 
+var errNoNativeCache = errors.New("native Kubernetes resources unavailable: no native cache")
+
 // CompositeCache is a cache for storing view objects. It delegates native objects to a default
 // cache.
 type CompositeCache struct {
@@ -96,6 +99,9 @@ func (cc *CompositeCache) GetInformer(ctx context.Context, obj client.Object, op
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.GetInformer(ctx, obj)
 	}
+	if cc.defaultCache == nil {
+		return nil, errNoNativeCache
+	}
 	return cc.defaultCache.GetInformer(ctx, obj)
 }
 
@@ -107,6 +113,9 @@ func (cc *CompositeCache) GetInformerForKind(ctx context.Context, gvk schema.Gro
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.GetInformerForKind(ctx, gvk)
 	}
+	if cc.defaultCache == nil {
+		return nil, errNoNativeCache
+	}
 	return cc.defaultCache.GetInformerForKind(ctx, gvk)
 }
 
@@ -119,6 +128,9 @@ func (cc *CompositeCache) RemoveInformer(ctx context.Context, obj client.Object)
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.RemoveInformer(ctx, obj)
 	}
+	if cc.defaultCache == nil {
+		return errNoNativeCache
+	}
 	return cc.defaultCache.RemoveInformer(ctx, obj)
 }
 
@@ -137,7 +149,7 @@ func (cc *CompositeCache) Start(ctx context.Context) error {
 
 // WaitForCacheSync waits for all the caches to sync. Returns false if it could not sync a cache.c
 func (cc *CompositeCache) WaitForCacheSync(ctx context.Context) bool {
-	return cc.viewCache.WaitForCacheSync(ctx) && cc.defaultCache.WaitForCacheSync(ctx)
+	return cc.viewCache.WaitForCacheSync(ctx) && (cc.defaultCache == nil || cc.defaultCache.WaitForCacheSync(ctx))
 }
 
 // IndexField adds an index with the given field name on the given object type.
@@ -146,6 +158,9 @@ func (cc *CompositeCache) IndexField(ctx context.Context, obj client.Object, fie
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.IndexField(ctx, obj, field, extractValue)
 	}
+	if cc.defaultCache == nil {
+		return errNoNativeCache
+	}
 	return cc.defaultCache.IndexField(ctx, obj, field, extractValue)
 }
 
@@ -158,6 +173,9 @@ func (cc *CompositeCache) Get(ctx context.Context, key client.ObjectKey, obj cli
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.Get(ctx, key, obj, opts...)
 	}
+	if cc.defaultCache == nil {
+		return errNoNativeCache
+	}
 	return cc.defaultCache.Get(ctx, key, obj, opts...)
 }
 
@@ -170,5 +188,8 @@ func (cc *CompositeCache) List(ctx context.Context, list client.ObjectList, opts
 	if viewv1a1.IsViewKind(gvk) {
 		return cc.viewCache.List(ctx, list, opts...)
 	}
+	if cc.defaultCache == nil {
+		return errNoNativeCache
+	}
 	return cc.defaultCache.List(ctx, list, opts...)
 }
-- 
2.43.0


From 04538eadaf8195ba4851cc530a558e98898059bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:32 +0000
Subject: [PATCH 35/57] fix: report failed creations and write the status of
 created objects

---
 pkg/reconciler/ctrlutils.go | 69 ++++++++++++++++++++++++++-----------
 1 file changed, 49 insertions(+), 20 deletions(-)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 27cf729..692c6cd 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -29,13 +29,15 @@ func isViewObject(obj client.Object) bool {
 //
 // Note: this version differs from default controllerutil.CreateOrUpdate in two ways:
 //   - it uses the unstructured API via object.Object
-//   - errors produced by the `Create` branch (after a failed `Get`) will be ignored
+//   - errors produced by the `Create` branch (after a failed `Get`) will be ignored if the object
+//     can be updated
 //
 // Status handling: For resources with status as a subresource (native Kubernetes objects like
 // Pods), client.Update() does NOT update status. This function saves the status before Update(),
 // then restores and updates it via Status().Update(). For resources without status subresource
 // (like view objects), this redundantly updates status twice but is harmless.
 func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f controllerutil.MutateFn) (controllerutil.OperationResult, error) {
+	var createErr error
 	key := client.ObjectKeyFromObject(obj)
 	if err := c.Get(ctx, key, obj); err != nil {
 		if !apierrors.IsNotFound(err) {
@@ -44,40 +46,67 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 		if err := mutate(f, key, obj); err != nil {
 			return controllerutil.OperationResultNone, err
 		}
-		if err := c.Create(ctx, obj); err != nil {
-			// this is not an error: default to the update branch
-			goto update
+
+		// Create ignores the status, too
+		newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
+		if createErr = c.Create(ctx, obj); createErr == nil {
+			if hasStatus {
+				if err := updateStatus(ctx, c, obj, newStatus); err != nil {
+					return controllerutil.OperationResultNone, err
+				}
+			}
+			return controllerutil.OperationResultCreated, nil
 		}
-		return controllerutil.OperationResultCreated, nil
+		// this is not an error yet: default to the update branch
 	}
 
-update:
 	if err := mutate(f, key, obj); err != nil {
 		return controllerutil.OperationResultNone, err
 	}
 
+	if err := update(ctx, c, obj); err != nil {
+		if createErr != nil && apierrors.IsNotFound(err) {
+			// the object does not exist: tell why it could not be created
+			return controllerutil.OperationResultNone, createErr
+		}
+		return controllerutil.OperationResultNone, err
+	}
+
+	return controllerutil.OperationResultUpdated, nil
+}
+
+// update updates an object, including the status if present.
+func update(ctx context.Context, c client.Client, obj object.Object) error {
 	// Update may rewrite out status
 	newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
 
 	if err := c.Update(ctx, obj); err != nil {
-		return controllerutil.OperationResultNone, err
+		return err
 	}
 
-	// Option 1: Skip redundant status update for view objects.
-	// For view objects, client.Update() already updates the status field since views don't have
-	// status as a subresource. Calling Status().Update() would cause a second update, triggering
-	// duplicate watch events and potential reconciliation loops.
-	// For native Kubernetes objects, we still need the separate Status().Update() call since
-	// client.Update() ignores the status subresource.
-	if hasStatus && !isViewObject(obj) {
-		if err := unstructured.SetNestedMap(obj.UnstructuredContent(), newStatus, "status"); err == nil {
-			if err := c.Status().Update(ctx, obj); err != nil {
-				return controllerutil.OperationResultNone, err
-			}
-		}
+	if hasStatus {
+		return updateStatus(ctx, c, obj, newStatus)
 	}
 
-	return controllerutil.OperationResultUpdated, nil
+	return nil
+}
+
+// updateStatus sets the status of an object that was created or updated.
+//
+// Option 1: Skip redundant status update for view objects.
+// For view objects, client.Update() already updates the status field since views don't have
+// status as a subresource. Calling Status().Update() would cause a second update, triggering
+// duplicate watch events and potential reconciliation loops.
+// For native Kubernetes objects, we still need the separate Status().Update() call since
+// client.Update() ignores the status subresource.
+func updateStatus(ctx context.Context, c client.Client, obj object.Object, newStatus map[string]any) error {
+	if isViewObject(obj) {
+		return nil
+	}
+	if err := unstructured.SetNestedMap(obj.UnstructuredContent(), newStatus, "status"); err != nil {
+		return nil //nolint:nilerr
+	}
+	return c.Status().Update(ctx, obj)
 }
 
 // Update updates the given object in the Kubernetes cluster, including status if present.
-- 
2.43.0


From 1d3b20959c9d427bd66aeb58028581110292317a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:38 +0000
Subject: [PATCH 36/57] fix: write targets in their current state and remove
 only existing fields

---
 pkg/cache/client.go         |   6 ++
 pkg/cache/view_client.go    |   7 ++
 pkg/reconciler/ctrlutils.go |  83 ++++++++++++++++++
 pkg/reconciler/target.go    | 166 +++++++++++-------------------------
 4 files changed, 148 insertions(+), 114 deletions(-)

diff --git a/pkg/cache/client.go b/pkg/cache/client.go
index 8369c9e..e9a31e8 100644
--- a/pkg/cache/client.go
+++ b/pkg/cache/client.go
@@ -11,6 +11,7 @@ import (
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
+	"github.com/l7mp/dcontroller/pkg/object"
 )
 
 var _ client.Client = &CompositeClient{}
@@ -141,6 +142,11 @@ func (c *CompositeClient) DeleteAllOf(ctx context.Context, obj client.Object, op
 	return c.Client.DeleteAllOf(ctx, obj, opts...)
 }
 
+// Modify atomically modifies a view object, see ViewCacheClient.Modify.
+func (c *CompositeClient) Modify(ctx context.Context, obj object.Object, f func(current object.Object) (object.Object, error)) error {
+	return c.viewClient.Modify(ctx, obj, f)
+}
+
 // Get retrieves an obj for the given object key.
 func (c *CompositeClient) Get(ctx context.Context, key client.ObjectKey, obj client.Object, opts ...client.GetOption) error {
 	return c.compositeCache.Get(ctx, key, obj, opts...)
diff --git a/pkg/cache/view_client.go b/pkg/cache/view_client.go
index 20607f8..ec8a9e3 100644
--- a/pkg/cache/view_client.go
+++ b/pkg/cache/view_client.go
@@ -201,6 +201,13 @@ func (c *ViewCacheClient) SubResource(subResource string) client.SubResourceClie
 	}
 }
 
+// Modify atomically replaces a view object with the result of a function, which receives a copy of
+// the current object or nil if there is none. The function may return nil to leave the object as
+// it is, and it must not use the client.
+func (c *ViewCacheClient) Modify(ctx context.Context, obj object.Object, f func(current object.Object) (object.Object, error)) error {
+	return c.modify(ctx, obj, func(current object.Object) (object.Object, error) { return f(object.DeepCopy(current)) })
+}
+
 // Watch interface implementation.
 
 // Watch watches objects of type obj and sends events on the returned channel.
diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 692c6cd..b672dac 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -7,6 +7,7 @@ import (
 	"github.com/l7mp/dcontroller/pkg/object"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
+	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/client-go/util/retry"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 	"sigs.k8s.io/controller-runtime/pkg/controller/controllerutil"
@@ -109,6 +110,88 @@ func updateStatus(ctx context.Context, c client.Client, obj object.Object, newSt
 	return c.Status().Update(ctx, obj)
 }
 
+// viewModifier is implemented by the clients that can atomically modify view objects.
+type viewModifier interface {
+	Modify(ctx context.Context, obj object.Object, f func(current object.Object) (object.Object, error)) error
+}
+
+// createOrModify creates an object or modifies the existing one.
+func createOrModify(ctx context.Context, c client.Client, obj object.Object, f func(obj object.Object) error) (controllerutil.OperationResult, error) {
+	m, ok := c.(viewModifier)
+	if !ok || !isViewObject(obj) {
+		return CreateOrUpdate(ctx, c, obj, func() error { return f(obj) })
+	}
+
+	res := controllerutil.OperationResultUpdated
+	err := m.Modify(ctx, obj, func(current object.Object) (object.Object, error) {
+		if current == nil {
+			current, res = obj, controllerutil.OperationResultCreated
+		}
+		return current, f(current)
+	})
+
+	return res, err
+}
+
+// modify modifies an existing object with a function while keeping the identity of the object. The
+// key is given by an object of the same type, name and namespace. The original is the last known
+// state of the object or nil, which is modified unless it is stale. The result tells whether the
+// object was found.
+func modify(ctx context.Context, c client.Client, key, original object.Object, f func(obj object.Object) error) (bool, error) {
+	gvk, name := key.GroupVersionKind(), client.ObjectKeyFromObject(key)
+	found := false
+	modified := func(obj object.Object) (object.Object, error) {
+		found = true
+		uid, resourceVersion := obj.GetUID(), obj.GetResourceVersion()
+		if err := f(obj); err != nil {
+			return nil, err
+		}
+		obj.SetGroupVersionKind(gvk)
+		obj.SetName(name.Name)
+		obj.SetNamespace(name.Namespace)
+		obj.SetUID(uid)
+		obj.SetResourceVersion(resourceVersion)
+		return obj, nil
+	}
+
+	if m, ok := c.(viewModifier); ok && isViewObject(key) {
+		err := m.Modify(ctx, key, func(current object.Object) (object.Object, error) {
+			if current == nil {
+				return nil, apierrors.NewNotFound(schema.GroupResource{Group: gvk.Group, Resource: gvk.Kind}, name.String())
+			}
+			return modified(current)
+		})
+		return found, err
+	}
+
+	// Check if we can use the original object snapshot (same GVK, namespace, name)
+	if original != nil && (isViewObject(key) || original.GroupVersionKind() != gvk || client.ObjectKeyFromObject(original) != name) {
+		original = nil
+	}
+
+	// The resource version prevents changing an object in other than its current state
+	err := retry.RetryOnConflict(retry.DefaultRetry, func() error {
+		obj := object.New()
+		if original != nil {
+			obj, original = object.DeepCopy(original), nil
+		} else {
+			obj.SetGroupVersionKind(gvk)
+			if err := c.Get(ctx, name, obj); err != nil {
+				return err
+			}
+		}
+
+		obj, err := modified(obj)
+		if err != nil {
+			return err
+		}
+
+		return update(ctx, c, obj)
+	})
+
+	return found, err
+}
+
 // Update updates the given object in the Kubernetes cluster, including status if present.
 //
 // This function properly handles status updates for both:
diff --git a/pkg/reconciler/target.go b/pkg/reconciler/target.go
index c63e766..0dea5d7 100644
--- a/pkg/reconciler/target.go
+++ b/pkg/reconciler/target.go
@@ -8,7 +8,6 @@ import (
 	"github.com/go-logr/logr"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
-	"k8s.io/apimachinery/pkg/runtime/schema"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
@@ -60,7 +59,8 @@ func (t *target) String() string {
 //     content is removed from the target using a strategic merge patch.
 //
 // The originalObject parameter is the object snapshot from the reconcile request, used for
-// optimistic concurrency control in Patcher mode. If nil, the current object is fetched.
+// optimistic concurrency control in Patcher mode. If nil, the current object is fetched. Views are
+// always patched in their current state.
 func (t *target) Write(ctx context.Context, delta object.Delta, originalObject object.Object) error {
 	if delta.Object == nil {
 		return errors.New("write: empty object in delta")
@@ -112,7 +112,7 @@ func (t *target) update(ctx context.Context, delta object.Delta) error {
 		// pipeline may be too difficult)
 		//
 		// Use our own CreateOrUpdate that will also update the status
-		res, err := CreateOrUpdate(context.TODO(), c, obj, func() error {
+		res, err := createOrModify(ctx, c, obj, func(obj object.Object) error {
 			// remove stuff that's no longer there
 			for k := range obj.UnstructuredContent() {
 				if k == "metadata" {
@@ -187,48 +187,15 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 		t.log.V(4).Info("update-patch", "event-type", delta.Type,
 			"key", client.ObjectKeyFromObject(delta.Object).String())
 
-		// Check if we can use the original object snapshot (same GVK, namespace, name)
-		useOriginal := originalObject != nil &&
-			originalObject.GroupVersionKind() == delta.Object.GroupVersionKind() &&
-			originalObject.GetNamespace() == delta.Object.GetNamespace() &&
-			originalObject.GetName() == delta.Object.GetName()
-
-		var obj object.Object
-		if useOriginal {
-			// Use the original object snapshot (has correct resourceVersion)
-			obj = object.DeepCopy(originalObject)
-			t.log.V(4).Info("using original object snapshot for patch",
-				"resourceVersion", obj.GetResourceVersion())
-		} else {
-			// Fetch current target object
-			obj = object.New()
-			obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-			obj.SetName(delta.Object.GetName())
-			obj.SetNamespace(delta.Object.GetNamespace())
-			if err := c.Get(ctx, client.ObjectKeyFromObject(obj), obj); err != nil {
-				return err
-			}
-			t.log.V(4).Info("fetched target object for patch",
-				"resourceVersion", obj.GetResourceVersion())
-		}
-
 		// Apply delta changes to the object in-place using merge-patch semantics (RFC 7386).
 		// This properly merges nested objects and arrays rather than replacing them.
-		if err := object.Patch(obj, delta.Object.UnstructuredContent()); err != nil {
-			return err
-		}
-
-		// Restore critical metadata that must not be overwritten
-		obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-		obj.SetName(delta.Object.GetName())
-		obj.SetNamespace(delta.Object.GetNamespace())
+		found, err := modify(ctx, c, delta.Object, originalObject, func(obj object.Object) error {
+			return object.Patch(obj, delta.Object.UnstructuredContent())
+		})
 
-		// Use our custom Update function which handles both spec and status correctly.
-		// This uses optimistic concurrency control via resourceVersion (Kubernetes will reject
-		// if the object has changed). NotFound errors are ignored: the object has disappeared
-		// while we were working on it.
-		if err := Update(ctx, c, obj); err != nil {
-			if !apierrors.IsNotFound(err) {
+		// NotFound errors are ignored if the object has disappeared while we were working on it.
+		if err != nil {
+			if !found || !apierrors.IsNotFound(err) {
 				return fmt.Errorf("update resource %s failed: %w",
 					client.ObjectKeyFromObject(delta.Object).String(), err)
 			}
@@ -236,75 +203,26 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 				"event-type", delta.Type)
 		}
 
-		t.log.V(4).Info("patched object", "result", object.Dump(obj))
-
 	case object.Deleted:
 		t.log.V(4).Info("delete-patch", "event-type", delta.Type,
 			"key", client.ObjectKeyFromObject(delta.Object).String())
 
-		// Check if we can use the original object snapshot (same GVK, namespace, name)
-		useOriginal := originalObject != nil &&
-			originalObject.GroupVersionKind() == delta.Object.GroupVersionKind() &&
-			originalObject.GetNamespace() == delta.Object.GetNamespace() &&
-			originalObject.GetName() == delta.Object.GetName()
-
-		var obj object.Object
-		if useOriginal {
-			// Use the original object snapshot (has correct resourceVersion)
-			obj = object.DeepCopy(originalObject)
-			t.log.V(4).Info("using original object snapshot for delete-patch",
-				"resourceVersion", obj.GetResourceVersion())
-		} else {
-			// Fetch current target object
-			obj = object.New()
-			obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-			obj.SetName(delta.Object.GetName())
-			obj.SetNamespace(delta.Object.GetNamespace())
-			if err := c.Get(ctx, client.ObjectKeyFromObject(obj), obj); err != nil {
-				// NotFound errors are ignored: the object has disappeared
-				if apierrors.IsNotFound(err) {
-					t.log.V(2).Info("delete-patch: object has disappeared (probably harmless)",
-						"event-type", delta.Type)
-					return nil
-				}
-				return err
-			}
-			t.log.V(4).Info("fetched target object for delete-patch",
-				"resourceVersion", obj.GetResourceVersion())
-		}
-
 		// Apply the delete patch locally so that we fully control the behavior.
-		// The removeNestedMap function converts all leaf values to nil, which is
-		// the merge-patch semantics for deletion (RFC 7386).
-		patch := removeNestedMap(delta.Object.UnstructuredContent())
-
-		// Make sure we do not remove crucial metadata: the GVK and the namespace/name
-		gvk := delta.Object.GroupVersionKind()
-		gr := schema.GroupVersion{Group: gvk.Group, Version: gvk.Version}
-		unstructured.SetNestedField(patch, gr.String(), "apiVersion")                            //nolint:errcheck
-		unstructured.SetNestedField(patch, gvk.Kind, "kind")                                     //nolint:errcheck
-		unstructured.SetNestedField(patch, delta.Object.GetNamespace(), "metadata", "namespace") //nolint:errcheck
-		unstructured.SetNestedField(patch, delta.Object.GetName(), "metadata", "name")           //nolint:errcheck
-
-		t.log.V(5).Info("delete-patch content", "patch", util.Stringify(patch))
-
-		// Apply delete patch to the fetched/cached object in-place
-		if err := object.Patch(obj, patch); err != nil {
-			return err
-		}
-
-		// Restore critical metadata that must not be overwritten
-		obj.SetGroupVersionKind(delta.Object.GroupVersionKind())
-		obj.SetName(delta.Object.GetName())
-		obj.SetNamespace(delta.Object.GetNamespace())
+		_, err := modify(ctx, c, delta.Object, originalObject, func(obj object.Object) error {
+			// Only the fields of the object can be removed
+			patch := removeNestedMap(obj.UnstructuredContent(), delta.Object.UnstructuredContent())
+			t.log.V(5).Info("delete-patch content", "patch", util.Stringify(patch))
+			return object.Patch(obj, patch)
+		})
 
-		// Use our custom Update function which handles both spec and status correctly.
-		// This uses optimistic concurrency control via resourceVersion (Kubernetes will reject
-		// if the object has changed). NotFound errors are ignored: the object has disappeared
-		// while we were working on it.
-		if err := Update(ctx, c, obj); err != nil && !apierrors.IsNotFound(err) {
-			return fmt.Errorf("update resource %s after delete-patch failed: %w",
-				client.ObjectKeyFromObject(delta.Object).String(), err)
+		// NotFound errors are ignored: the object has disappeared
+		if err != nil {
+			if !apierrors.IsNotFound(err) {
+				return fmt.Errorf("update resource %s after delete-patch failed: %w",
+					client.ObjectKeyFromObject(delta.Object).String(), err)
+			}
+			t.log.V(2).Info("delete-patch: object has disappeared (probably harmless)",
+				"event-type", delta.Type)
 		}
 
 	default:
@@ -314,32 +232,52 @@ func (t *target) patch(ctx context.Context, delta object.Delta, originalObject o
 	return nil
 }
 
-func removeNestedMap(m map[string]any) map[string]any {
+// removeNestedMap creates a merge patch that removes the fields of a map from an object: the leaf
+// values are converted to nil, which is the merge-patch semantics for deletion (RFC 7386). Fields
+// that do not exist in the object are ignored.
+func removeNestedMap(obj, m map[string]any) map[string]any {
 	result := make(map[string]any)
 	for k, v := range m {
+		o, ok := obj[k]
+		if !ok {
+			continue
+		}
 		switch x := v.(type) {
 		case bool, int64, float64, string:
 			result[k] = nil
 		case map[string]any:
-			result[k] = removeNestedMap(x)
+			if mo, ok := o.(map[string]any); ok {
+				result[k] = removeNestedMap(mo, x)
+			}
 		case []any:
-			result[k] = removeNestedList(x)
+			if lo, ok := o.([]any); ok {
+				result[k] = removeNestedList(lo, x)
+			}
 		}
 	}
 	return result
 }
 
-func removeNestedList(l []any) []any {
-	result := make([]any, len(l))
+func removeNestedList(obj, l []any) []any {
+	result := make([]any, 0, len(l))
 	for k, v := range l {
+		if k >= len(obj) {
+			break
+		}
+		var item any
 		switch x := v.(type) {
-		case bool, int64, float64, string:
-			result[k] = nil
 		case map[string]any:
-			result[k] = removeNestedMap(x)
+			item = obj[k]
+			if mo, ok := item.(map[string]any); ok {
+				item = removeNestedMap(mo, x)
+			}
 		case []any:
-			result[k] = removeNestedList(x)
+			item = obj[k]
+			if lo, ok := item.([]any); ok {
+				item = removeNestedList(lo, x)
+			}
 		}
+		result = append(result, item)
 	}
 	return result
 }
-- 
2.43.0


From b954b45ca8d2e55c83c3b445a39fa6986134c1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 37/57] fix: accept tokens with the signing algorithm of issued
 tokens only

---
 pkg/auth/authenticator.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/auth/authenticator.go b/pkg/auth/authenticator.go
index f742e9c..eefb06e 100644
--- a/pkg/auth/authenticator.go
+++ b/pkg/auth/authenticator.go
@@ -48,7 +48,7 @@ func (a *JWTAuthenticator) AuthenticateRequest(req *http.Request) (*authenticato
 	// Parse and validate JWT
 	claims := &Claims{}
 	jwtToken, err := jwt.ParseWithClaims(token, claims, func(token *jwt.Token) (interface{}, error) {
-		if _, ok := token.Method.(*jwt.SigningMethodRSA); !ok {
+		if token.Method != jwt.SigningMethodRS256 {
 			return nil, fmt.Errorf("unexpected signing method: %v", token.Header["alg"])
 		}
 		return a.publicKey, nil
-- 
2.43.0


From ea60115bc105f66cb76897fd9e880340e6af695d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 38/57] fix: do not match the same characters twice in a
 wildcard pattern

---
 pkg/auth/rbac.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/auth/rbac.go b/pkg/auth/rbac.go
index 39f0c67..4c517db 100644
--- a/pkg/auth/rbac.go
+++ b/pkg/auth/rbac.go
@@ -128,7 +128,8 @@ func matchesWildcard(pattern, value string) bool {
 	// Handle middle wildcard: "foo*bar" (split on first *)
 	parts := strings.SplitN(pattern, "*", 2)
 	if len(parts) == 2 {
-		return strings.HasPrefix(value, parts[0]) && strings.HasSuffix(value, parts[1])
+		return len(value) >= len(parts[0])+len(parts[1]) &&
+			strings.HasPrefix(value, parts[0]) && strings.HasSuffix(value, parts[1])
 	}
 
 	return false
-- 
2.43.0


From 333c107a8a51b8f0e5e17935a71f0b4c9ddfea6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 39/57] fix: keep private key files private

---
 main.go           | 2 +-
 pkg/auth/token.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/main.go b/main.go
index 09c6d87..2e62887 100644
--- a/main.go
+++ b/main.go
@@ -149,7 +149,7 @@ func runGenerateKeys(_ *cobra.Command, cfg genKeysConfig) error {
 		return fmt.Errorf("failed to generate keys: %w", err)
 	}
 
-	if err := auth.WriteCertAndKey(cfg.keyFile, cfg.certFile, key, cert); err != nil {
+	if err := auth.WriteCertAndKey(cfg.certFile, cfg.keyFile, cert, key); err != nil {
 		return fmt.Errorf("failed to write key/cert into file %q/%q: %w", cfg.keyFile, cfg.certFile, err)
 	}
 
diff --git a/pkg/auth/token.go b/pkg/auth/token.go
index 7e600dd..eedeca3 100644
--- a/pkg/auth/token.go
+++ b/pkg/auth/token.go
@@ -145,6 +145,10 @@ func WriteCertAndKey(certFile, keyFile string, certPEM, keyPEM []byte) error {
 	if err := os.WriteFile(certFile, certPEM, 0644); err != nil { //nolint:gosec
 		return fmt.Errorf("failed to write certificate file: %w", err)
 	}
+	// the permissions of an existing file are not affected by writing it
+	if err := os.Chmod(keyFile, 0600); err != nil && !os.IsNotExist(err) {
+		return fmt.Errorf("failed to set the permissions of the key file: %w", err)
+	}
 	if err := os.WriteFile(keyFile, keyPEM, 0600); err != nil {
 		return fmt.Errorf("failed to write key file: %w", err)
 	}
-- 
2.43.0


From 0d93a0cc401863489711bc058596cb2fa40f4ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:04 +0000
Subject: [PATCH 40/57] fix: do not crash on tokens without dates

---
 main.go | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 2e62887..fd1d1a2 100644
--- a/main.go
+++ b/main.go
@@ -592,9 +592,9 @@ func runGetConfig(cfg getConfigConfig) error {
 	fmt.Println()
 	fmt.Println("⏱️  Token Metadata:")
 	fmt.Printf("   Issuer:     %s\n", claims.Issuer)
-	fmt.Printf("   Issued At:  %s\n", claims.IssuedAt.Format(time.RFC3339))
-	fmt.Printf("   Expires At: %s\n", claims.ExpiresAt.Format(time.RFC3339))
-	fmt.Printf("   Not Before: %s\n", claims.NotBefore.Format(time.RFC3339))
+	fmt.Printf("   Issued At:  %s\n", formatDate(claims.IssuedAt))
+	fmt.Printf("   Expires At: %s\n", formatDate(claims.ExpiresAt))
+	fmt.Printf("   Not Before: %s\n", formatDate(claims.NotBefore))
 
 	// Check expiry
 	if claims.ExpiresAt != nil && time.Now().After(claims.ExpiresAt.Time) {
@@ -717,6 +717,14 @@ func runVisualize(operatorFile string, cfg visualizeConfig) error {
 // Helper functions
 // ============================================================================
 
+// formatDate formats an optional date of a token.
+func formatDate(date *jwt.NumericDate) string {
+	if date == nil {
+		return "<none>"
+	}
+	return date.Format(time.RFC3339)
+}
+
 func parseCommaSeparated(s string) []string {
 	if s == "" {
 		return nil
-- 
2.43.0


From 579a91a2f8b3fbc18cc0fb364c6cfb4c51cc5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:30 +0000
Subject: [PATCH 41/57] fix: protect the error stack of the controllers from
 concurrent use

Errors are reported from the goroutines of all sources of a controller while the status
is being read. Without synchronization errors were lost or duplicated.
---
 pkg/controller/status_reporter.go | 33 +++++++++++++++++++++++++------
 1 file changed, 27 insertions(+), 6 deletions(-)

diff --git a/pkg/controller/status_reporter.go b/pkg/controller/status_reporter.go
index 547e8d1..2bfd485 100644
--- a/pkg/controller/status_reporter.go
+++ b/pkg/controller/status_reporter.go
@@ -4,6 +4,7 @@ import (
 	"errors"
 	"fmt"
 	"strings"
+	"sync"
 	"time"
 
 	"golang.org/x/time/rate"
@@ -37,6 +38,7 @@ type errorReporter struct {
 	ratelimiter rate.Sometimes
 	errorChan   chan error
 	critical    bool // whether a critical error has been reported
+	mu          sync.RWMutex
 }
 
 // NewErrorReporter creates a new error reporter.
@@ -61,22 +63,28 @@ func (s *errorReporter) PushErrorf(format string, a ...any) error {
 
 // PushCritical pushes a critical error to the error stack.
 func (s *errorReporter) PushCritical(err error) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(err)
 }
 
 // PushCriticalError pushes a critical error to the error stack.
 func (s *errorReporter) PushCriticalError(msg string) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(errors.New(msg))
 }
 
 // PushCriticalErrorf pushes a formatted critical error to the error stack.
 func (s *errorReporter) PushCriticalErrorf(format string, a ...any) error {
-	s.critical = true
+	s.setCritical()
 	return s.push(fmt.Errorf(format, a...))
 }
 
+func (s *errorReporter) setCritical() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	s.critical = true
+}
+
 // Push pushes a critical or non-critical error to the stack.
 func (s *errorReporter) push(err error) error {
 	ctrlErr := Error{Operator: s.c.op, Controller: s.c.name, error: err}
@@ -88,6 +96,9 @@ func (s *errorReporter) push(err error) error {
 		}
 	})
 
+	s.mu.Lock()
+	defer s.mu.Unlock() // runs before the status update is triggered
+
 	if len(s.errorStack) == ErrorReporterStackSize {
 		copy(s.errorStack, s.errorStack[1:])
 		s.errorStack[len(s.errorStack)-1] = ctrlErr
@@ -100,7 +111,9 @@ func (s *errorReporter) push(err error) error {
 
 // Pop pops the extra error from the stack.
 func (s *errorReporter) Pop() {
-	if s.IsEmpty() {
+	s.mu.Lock()
+	defer s.mu.Unlock()
+	if len(s.errorStack) == 0 {
 		return
 	}
 	s.errorStack = s.errorStack[:len(s.errorStack)-1]
@@ -108,7 +121,9 @@ func (s *errorReporter) Pop() {
 
 // Top returns the last errors from the stack.
 func (s *errorReporter) Top() error {
-	if s.IsEmpty() {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
+	if len(s.errorStack) == 0 {
 		return nil
 	}
 	return s.errorStack[len(s.errorStack)-1]
@@ -116,21 +131,27 @@ func (s *errorReporter) Top() error {
 
 // Size returns the number of errors on the stack.
 func (s *errorReporter) Size() int {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	return len(s.errorStack)
 }
 
 // IsEmpty returns true if the stack is empty.
 func (s *errorReporter) IsEmpty() bool {
-	return len(s.errorStack) == 0
+	return s.Size() == 0
 }
 
 // HasCritical returns true if the stack contains a critical error.
 func (s *errorReporter) HasCritical() bool {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	return s.critical
 }
 
 // Report returns the error messages on the stack.
 func (s *errorReporter) Report() []string {
+	s.mu.RLock()
+	defer s.mu.RUnlock()
 	errs := []string{}
 	for _, err := range s.errorStack {
 		errs = append(errs, trim(err.Error()))
-- 
2.43.0


From 25805a454f41f20cce5d11f555d05fb33a7d8cf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:17 +0000
Subject: [PATCH 42/57] fix: create the pipeline of a controller before its
 sources may produce events

---
 pkg/controller/declarative.go | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index 570478f..9068faa 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -47,6 +47,7 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		sources: []reconciler.Source{},
 		config:  config,
 		logger:  logger,
+
 	}
 	c.errorReporter = NewErrorReporter(c, opts.ErrorChan)
 
@@ -83,8 +84,28 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 
 	c.log.V(4).Info("creating", "sources", fmt.Sprintf("[%s]", strings.Join(srcs, ",")))
 
-	on := true
+	// Create the pipeline: this must be ready by the time the first event arrives.
 	baseviews := []schema.GroupVersionKind{}
+	for _, s := range c.sources {
+		gvk, err := s.GetGVK()
+		if err != nil {
+			return c, c.PushCriticalErrorf("failed to obtain GVK for source %s: %w",
+				util.Stringify(s), err)
+		}
+		// Only incremental sources flow through the pipeline.
+		if s.Type() != opv1a1.Periodic {
+			baseviews = append(baseviews, gvk)
+		}
+	}
+
+	c.pipeline, err = pipeline.New(c.op, targetGVK, baseviews, c.config.Pipeline,
+		logger.WithName("pipeline").WithValues("controller", c.name, "target", targetGVK.String()))
+	if err != nil {
+		return c, c.PushCriticalErrorf("failed to create pipleline for controller %s: %w",
+			c.name, err)
+	}
+
+	on := true
 	for i, s := range c.sources {
 		gvk, err := s.GetGVK()
 		if err != nil {
@@ -100,8 +121,6 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		} else {
 			// Incremental reconciler for watcher and oneshot sources.
 			rec = NewIncrementalReconciler(mgr, c)
-			// Only incremental sources flow through the pipeline.
-			baseviews = append(baseviews, gvk)
 		}
 
 		// Create the controller with a unique name per source.
@@ -134,15 +153,6 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		c.log.V(4).Info("watching resource", "GVK", s.String(), "controller", ctrlName)
 	}
 
-	// Create the pipeline.
-	pipeline, err := pipeline.New(c.op, targetGVK, baseviews, c.config.Pipeline,
-		logger.WithName("pipeline").WithValues("controller", c.name, "target", targetGVK.String()))
-	if err != nil {
-		return c, c.PushCriticalErrorf("failed to create pipleline for controller %s: %w",
-			c.name, err)
-	}
-	c.pipeline = pipeline
-
 	c.log.Info("controller ready", "sources", fmt.Sprintf("[%s]", strings.Join(srcs, ",")),
 		"pipeline", c.pipeline.String(), "target", c.target.String(),
 		"errors", strings.Join(c.Report(), ","))
-- 
2.43.0


From b67580999520c68cdfc0b8c7baa0fcf389aa45c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:18 +0000
Subject: [PATCH 43/57] fix: deliver the results of a controller in order and
 retry failed writes

---
 pkg/controller/declarative.go |   2 +
 pkg/controller/reconcilers.go | 150 ++++++++++++++++++++++++++++------
 2 files changed, 127 insertions(+), 25 deletions(-)

diff --git a/pkg/controller/declarative.go b/pkg/controller/declarative.go
index 9068faa..5ef953d 100644
--- a/pkg/controller/declarative.go
+++ b/pkg/controller/declarative.go
@@ -21,6 +21,7 @@ import (
 // specifications.
 type DeclarativeController struct {
 	*errorReporter
+	deliveryState
 	name, op    string
 	config      opv1a1.Controller
 	sources     []reconciler.Source
@@ -48,6 +49,7 @@ func NewDeclarative(mgr manager.Manager, operator string, config opv1a1.Controll
 		config:  config,
 		logger:  logger,
 
+		deliveryState: newDeliveryState(),
 	}
 	c.errorReporter = NewErrorReporter(c, opts.ErrorChan)
 
diff --git a/pkg/controller/reconcilers.go b/pkg/controller/reconcilers.go
index f12dc78..25a5395 100644
--- a/pkg/controller/reconcilers.go
+++ b/pkg/controller/reconcilers.go
@@ -2,12 +2,15 @@ package controller
 
 import (
 	"context"
+	"errors"
 	"fmt"
+	"sync"
 
 	"github.com/go-logr/logr"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 	"sigs.k8s.io/controller-runtime/pkg/reconcile"
 
+	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
 	"github.com/l7mp/dcontroller/pkg/manager"
 	"github.com/l7mp/dcontroller/pkg/object"
 	"github.com/l7mp/dcontroller/pkg/reconciler"
@@ -44,6 +47,18 @@ func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Re
 		return reconcile.Result{}, nil
 	}
 
+	r.controller.deliveryMu.Lock()
+	defer r.controller.deliveryMu.Unlock()
+
+	// Do not evaluate a failed request again if the object has changed since then.
+	if r.controller.isObsolete(req) {
+		err := r.controller.write(ctx, req, nil, nil)
+		if err != nil {
+			r.controller.obsolete[req] = true
+		}
+		return reconcile.Result{}, err
+	}
+
 	// Automatically decode Secret data fields for use in pipeline expressions. Work on a copy: the
 	// request may be retried and the snapshot may be written back.
 	obj := object.DecodeSecretData(object.DeepCopy(req.Object))
@@ -54,27 +69,21 @@ func (r *IncrementalReconciler) Reconcile(ctx context.Context, req reconciler.Re
 		Object: obj,
 	}
 
-	// Process the delta through the pipeline (pipeline has internal locking).
+	// Process the delta through the pipeline.
 	deltas, err := r.controller.pipeline.Evaluate(delta)
 	if err != nil {
+		r.controller.failed[keyOf(req)] = req
 		err = fmt.Errorf("error evaluating pipeline for object %s/%s: %w", req.GVK,
 			client.ObjectKeyFromObject(obj), err)
 		r.log.Error(r.controller.Push(err), "error", "request", req)
 		return reconcile.Result{}, err
 	}
 
-	// Apply the resultant deltas.
-	for _, d := range deltas {
-		r.log.V(4).Info("writing delta to target", "target", r.controller.target.String(),
-			"delta-type", d.Type, "object", object.Dump(d.Object))
-
-		// Pass the original object from the request for optimistic concurrency control.
-		if err := r.controller.target.Write(ctx, d, req.Object); err != nil {
-			err = fmt.Errorf("cannot update target %s for delta %s: %w", req.GVK,
-				d.String(), err)
-			r.log.Error(r.controller.Push(err), "error", "request", req)
-			return reconcile.Result{}, err
-		}
+	// Apply the resultant deltas. Pass the original object from the request for optimistic
+	// concurrency control.
+	if err := r.controller.write(ctx, req, deltas, req.Object); err != nil {
+		r.controller.obsolete[req] = true // already evaluated, only the writes are to be retried
+		return reconcile.Result{}, err
 	}
 
 	return reconcile.Result{}, nil
@@ -101,6 +110,9 @@ func NewStateOfTheWorldReconciler(mgr manager.Manager, c *DeclarativeController)
 // target state (based on current sources) and the actual target state, then applies
 // the delta to bring the target up to date.
 func (r *StateOfTheWorldReconciler) Reconcile(ctx context.Context, req reconciler.Request) (reconcile.Result, error) {
+	r.controller.deliveryMu.Lock()
+	defer r.controller.deliveryMu.Unlock()
+
 	// Call pipeline.Sync() to compute the delta needed to reconcile target state.
 	deltas, err := r.controller.pipeline.Sync()
 	if err != nil {
@@ -111,21 +123,109 @@ func (r *StateOfTheWorldReconciler) Reconcile(ctx context.Context, req reconcile
 
 	r.log.V(2).Info("state-of-the-world reconciliation computed deltas", "num-deltas", len(deltas))
 
-	// Apply the deltas to the target.
-	for _, d := range deltas {
-		r.log.V(4).Info("writing delta to target", "target", r.controller.target.String(),
-			"delta-type", d.Type, "object", object.Dump(d.Object))
-
-		// Pass nil for state-of-the-world reconciliation (eventual consistency is acceptable).
-		if err := r.controller.target.Write(ctx, d, nil); err != nil {
-			err = fmt.Errorf("cannot update target %s for delta %s: %w",
-				r.controller.target.String(), d.String(), err)
-			r.log.Error(r.controller.Push(err), "error", "request", req)
-			return reconcile.Result{}, err
-		}
+	// Apply the deltas to the target. Pass nil for state-of-the-world reconciliation (eventual
+	// consistency is acceptable).
+	if err := r.controller.write(ctx, req, deltas, nil); err != nil {
+		return reconcile.Result{}, err
 	}
 
 	r.log.V(1).Info("reconciliation complete", "num-deltas", len(deltas))
 
 	return reconcile.Result{}, nil
 }
+
+// deliveryState makes sure that the results of a pipeline reach the target in the order in which they
+// were produced and that failed writes are retried.
+type deliveryState struct {
+	deliveryMu sync.Mutex                                // protects evaluation and delivery
+	pending    []delivery                                // deltas not written to the target yet
+	failed     map[reconciler.Request]reconciler.Request // last failed request per object
+	obsolete   map[reconciler.Request]bool               // failed requests that must not be evaluated again
+}
+
+// delivery is a delta to be written to the target along with the request that has to write it.
+type delivery struct {
+	req    reconciler.Request
+	delta  object.Delta
+	origin object.Object
+}
+
+func newDeliveryState() deliveryState {
+	return deliveryState{
+		failed:   map[reconciler.Request]reconciler.Request{},
+		obsolete: map[reconciler.Request]bool{},
+	}
+}
+
+// keyOf returns the identity of the object of a request.
+func keyOf(req reconciler.Request) reconciler.Request {
+	return reconciler.Request{Namespace: req.Namespace, Name: req.Name, GVK: req.GVK}
+}
+
+// isObsolete tells whether a request is a retry that is not to be evaluated any more, either because
+// there have been newer requests for the same object or because it has already been evaluated. Other
+// requests render the last failed request of the same object obsolete.
+func (c *DeclarativeController) isObsolete(req reconciler.Request) bool {
+	if c.obsolete[req] {
+		delete(c.obsolete, req)
+		return true
+	}
+	if last, ok := c.failed[keyOf(req)]; ok {
+		delete(c.failed, keyOf(req))
+		if last != req {
+			c.obsolete[last] = true
+		}
+	}
+	return false
+}
+
+// write writes the deltas obtained for a request to the target, along with the ones the request could
+// not write earlier. An error does not prevent the rest of the objects from being written. If there is
+// an error then the request must be retried: only the failed writes will be repeated.
+func (c *DeclarativeController) write(ctx context.Context, req reconciler.Request, deltas []object.Delta, origin object.Object) error {
+	for _, d := range deltas {
+		c.enqueue(delivery{req: req, delta: d, origin: origin})
+	}
+
+	var errs []error
+	pending := []delivery{}
+	blocked := map[client.ObjectKey]bool{}
+	for _, p := range c.pending {
+		key := client.ObjectKeyFromObject(p.delta.Object)
+		if p.req != req || blocked[key] {
+			pending = append(pending, p)
+			continue
+		}
+
+		c.log.V(4).Info("writing delta to target", "target", c.target.String(),
+			"delta-type", p.delta.Type, "object", object.Dump(p.delta.Object))
+
+		if err := c.target.Write(ctx, p.delta, p.origin); err != nil {
+			blocked[key] = true
+			pending = append(pending, p)
+			err = fmt.Errorf("cannot update target %s for delta %s: %w", c.target.String(),
+				p.delta.String(), err)
+			c.log.Error(c.Push(err), "error", "request", req)
+			errs = append(errs, err)
+		}
+	}
+	c.pending = pending
+
+	return errors.Join(errs...)
+}
+
+// enqueue adds a new delta to the pending ones. This supersedes earlier deltas for the same object
+// except that a patcher must remove the result of the last deletion before the object is upserted.
+func (c *DeclarativeController) enqueue(d delivery) {
+	pending := []delivery{}
+	for _, p := range c.pending {
+		if client.ObjectKeyFromObject(p.delta.Object) == client.ObjectKeyFromObject(d.delta.Object) {
+			if p.delta.Type != object.Deleted || c.config.Target.Type != opv1a1.Patcher {
+				continue
+			}
+			p.req = d.req
+		}
+		pending = append(pending, p)
+	}
+	c.pending = append(pending, d)
+}
-- 
2.43.0


From 461fac9716493fec52c270e0bc37613ec65cdbe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:46 +0000
Subject: [PATCH 44/57] fix: create a result anew if it has been deleted but
 the client cache does not know this yet

---
 pkg/reconciler/ctrlutils.go | 30 ++++++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index b672dac..5b275fe 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -70,12 +70,42 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 			// the object does not exist: tell why it could not be created
 			return controllerutil.OperationResultNone, createErr
 		}
+		if apierrors.IsNotFound(err) {
+			// the object has been deleted but the client does not know this yet: create it anew
+			return create(ctx, c, obj, key, f)
+		}
 		return controllerutil.OperationResultNone, err
 	}
 
 	return controllerutil.OperationResultUpdated, nil
 }
 
+// create creates an object, including the status if present. The current content of the object is
+// ignored.
+func create(ctx context.Context, c client.Client, obj object.Object, key client.ObjectKey, f controllerutil.MutateFn) (controllerutil.OperationResult, error) {
+	gvk := obj.GetObjectKind().GroupVersionKind()
+	obj.SetUnstructuredContent(map[string]any{})
+	obj.GetObjectKind().SetGroupVersionKind(gvk)
+	obj.SetName(key.Name)
+	obj.SetNamespace(key.Namespace)
+	if err := mutate(f, key, obj); err != nil {
+		return controllerutil.OperationResultNone, err
+	}
+
+	// Create ignores the status
+	newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
+	if err := c.Create(ctx, obj); err != nil {
+		return controllerutil.OperationResultNone, err
+	}
+	if hasStatus {
+		if err := updateStatus(ctx, c, obj, newStatus); err != nil {
+			return controllerutil.OperationResultNone, err
+		}
+	}
+
+	return controllerutil.OperationResultCreated, nil
+}
+
 // update updates an object, including the status if present.
 func update(ctx context.Context, c client.Client, obj object.Object) error {
 	// Update may rewrite out status
-- 
2.43.0


From 0541574930d21f46d018e529b50ef74f0dbaaae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 45/57] fix: do not crash when operators are removed or stopped
 and start the operators once

---
 pkg/kubernetes/controllers/operator.go | 39 ++++++++++++++------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 9c5ad70..25afa8e 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -38,6 +38,7 @@ type opEntry struct {
 	errorChan chan error
 	ctx       context.Context    // Operator-specific context
 	cancel    context.CancelFunc // For stopping the operator
+	deleted   bool               // Removed, must not be started any more
 }
 
 type OpController struct {
@@ -185,10 +186,11 @@ func (c *OpController) AddOperator(op *operator.Operator) {
 	e := &opEntry{op: op, errorChan: op.GetErrorChannel()}
 	c.mu.Lock()
 	c.operators[name] = e
+	started := c.started
 	c.mu.Unlock()
 
 	// Start the new operator if we are already running
-	if c.started {
+	if started {
 		c.startOp(e)
 	}
 }
@@ -236,26 +238,38 @@ func (c *OpController) DeleteOperator(name string) {
 		return
 	}
 	delete(c.operators, name)
+	e.deleted = true
+	cancel := e.cancel
 	c.mu.Unlock()
 
 	c.log.V(4).Info("deleting operator", "name", name)
 	e.op.UnregisterGVKs()
-	e.cancel()
+
+	// Stop the operator if it is running
+	if cancel != nil {
+		cancel()
+	}
 }
 
 // startOp starts error channel aggregation for an operator.
 func (c *OpController) startOp(e *opEntry) {
 	// Create a context for the operator and start it
-	ctx, cancel := context.WithCancel(c.ctx)
 	c.mu.Lock()
+	if e.deleted {
+		c.mu.Unlock()
+		return
+	}
+	ctx, cancel := context.WithCancel(c.ctx)
 	e.ctx = ctx
 	e.cancel = cancel
 	c.mu.Unlock()
 
 	go func() {
 		if err := e.op.Start(ctx); err != nil {
-			c.errorChan <- err
-			return
+			select {
+			case c.errorChan <- err:
+			case <-ctx.Done():
+			}
 		}
 	}()
 
@@ -264,7 +278,6 @@ func (c *OpController) startOp(e *opEntry) {
 		for {
 			select {
 			case err := <-e.errorChan:
-				// Use non-blocking send to avoid writing to closed channel
 				select {
 				case c.errorChan <- err:
 				case <-ctx.Done():
@@ -309,9 +322,6 @@ func (c *OpController) Reconcile(ctx context.Context, req reconcile.Request) (re
 // Starts both the CRD manager (for watching Operator CRDs) and the operator manager
 // (for running operators and storing views).
 func (c *OpController) Start(ctx context.Context) error {
-	c.log.V(2).Info("starting operator controller", "num-operators", len(c.operators),
-		"APIServer", fmt.Sprintf("%t", c.apiServer != nil))
-
 	// Mark as started and collect operators to start
 	c.mu.Lock()
 	es := []*opEntry{}
@@ -322,14 +332,8 @@ func (c *OpController) Start(ctx context.Context) error {
 	c.ctx = ctx
 	c.mu.Unlock()
 
-	// Start the operator manager in the background
-	go func() {
-		c.log.V(2).Info("starting operator manager")
-
-		if err := c.crdMgr.Start(ctx); err != nil {
-			c.log.Error(err, "operator manager error")
-		}
-	}()
+	c.log.V(2).Info("starting operator controller", "num-operators", len(es),
+		"APIServer", fmt.Sprintf("%t", c.apiServer != nil))
 
 	// Start all operators
 	for _, e := range es {
@@ -338,7 +342,6 @@ func (c *OpController) Start(ctx context.Context) error {
 
 	// Surface errors from operators and generate CRD statuses.
 	go func() {
-		defer close(c.errorChan)
 		for {
 			select {
 			case err := <-c.errorChan:
-- 
2.43.0


From 5ad4cf66599fb17cfb2f6dfb85866554441ec6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:48 +0000
Subject: [PATCH 46/57] fix: write the statuses of operators in order and only
 for the present ones

---
 pkg/kubernetes/controllers/operator.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pkg/kubernetes/controllers/operator.go b/pkg/kubernetes/controllers/operator.go
index 25afa8e..00b334c 100644
--- a/pkg/kubernetes/controllers/operator.go
+++ b/pkg/kubernetes/controllers/operator.go
@@ -55,6 +55,8 @@ type OpController struct {
 	operators map[string]*opEntry
 	// Mutex for thread-safe operator map access
 	mu sync.Mutex
+	// Mutex for writing the operator statuses one at a time
+	statusMu sync.Mutex
 	// API server for exposing views
 	apiServer *apiserver.APIServer
 	// Error channel for operator errors
@@ -374,6 +376,15 @@ func (c *OpController) Start(ctx context.Context) error {
 func (c *OpController) updateStatus(ctx context.Context, op *operator.Operator) {
 	key := types.NamespacedName{Name: op.GetName()}
 
+	// Statuses must be written in order and the status of a former operator must not overwrite
+	// the status of its successor
+	c.statusMu.Lock()
+	defer c.statusMu.Unlock()
+	if c.GetOperator(op.GetName()) != op {
+		c.log.V(4).Info("ignoring the status of a former operator", "name", op.GetName())
+		return
+	}
+
 	// Fetch the Operator CRD once to get the generation, then capture the status snapshot.
 	// This ensures we're applying the same status on all retry attempts, preventing conflicts
 	// caused by the status changing between retries (e.g., new errors being pushed).
-- 
2.43.0


From 969d588e2fbb5d20123430ce86745a75712c80c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:46 +0000
Subject: [PATCH 47/57] fix: do not create an object anew if only its status
 cannot be updated

---
 pkg/reconciler/ctrlutils.go | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/pkg/reconciler/ctrlutils.go b/pkg/reconciler/ctrlutils.go
index 5b275fe..fdcadc7 100644
--- a/pkg/reconciler/ctrlutils.go
+++ b/pkg/reconciler/ctrlutils.go
@@ -65,12 +65,13 @@ func CreateOrUpdate(ctx context.Context, c client.Client, obj object.Object, f c
 		return controllerutil.OperationResultNone, err
 	}
 
-	if err := update(ctx, c, obj); err != nil {
-		if createErr != nil && apierrors.IsNotFound(err) {
+	updated, err := update(ctx, c, obj)
+	if err != nil {
+		if !updated && createErr != nil && apierrors.IsNotFound(err) {
 			// the object does not exist: tell why it could not be created
 			return controllerutil.OperationResultNone, createErr
 		}
-		if apierrors.IsNotFound(err) {
+		if !updated && apierrors.IsNotFound(err) {
 			// the object has been deleted but the client does not know this yet: create it anew
 			return create(ctx, c, obj, key, f)
 		}
@@ -106,20 +107,21 @@ func create(ctx context.Context, c client.Client, obj object.Object, key client.
 	return controllerutil.OperationResultCreated, nil
 }
 
-// update updates an object, including the status if present.
-func update(ctx context.Context, c client.Client, obj object.Object) error {
+// update updates an object, including the status if present. The result tells whether the object
+// was updated, which may happen even if updating the status fails.
+func update(ctx context.Context, c client.Client, obj object.Object) (bool, error) {
 	// Update may rewrite out status
 	newStatus, hasStatus, _ := unstructured.NestedMap(obj.UnstructuredContent(), "status")
 
 	if err := c.Update(ctx, obj); err != nil {
-		return err
+		return false, err
 	}
 
 	if hasStatus {
-		return updateStatus(ctx, c, obj, newStatus)
+		return true, updateStatus(ctx, c, obj, newStatus)
 	}
 
-	return nil
+	return true, nil
 }
 
 // updateStatus sets the status of an object that was created or updated.
@@ -216,7 +218,8 @@ func modify(ctx context.Context, c client.Client, key, original object.Object, f
 			return err
 		}
 
-		return update(ctx, c, obj)
+		_, err = update(ctx, c, obj)
+		return err
 	})
 
 	return found, err
-- 
2.43.0


From 4099d9b307ea17f70fb3ef4cf39d69e1263230fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:20 +0000
Subject: [PATCH 48/57] fix: update objects atomically in the API server

---
 pkg/apiserver/storage.go | 53 ++++++++++++++++++++++++++++++++++++++--
 1 file changed, 51 insertions(+), 2 deletions(-)

diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 600cb98..c8dc13e 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -2,10 +2,12 @@ package apiserver
 
 import (
 	"context"
+	"errors"
 	"fmt"
 	"strings"
 
 	"github.com/go-logr/logr"
+	"k8s.io/apimachinery/pkg/api/equality"
 	apierrors "k8s.io/apimachinery/pkg/api/errors"
 	metainternalversion "k8s.io/apimachinery/pkg/apis/meta/internalversion"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -16,6 +18,8 @@ import (
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	"k8s.io/apiserver/pkg/registry/rest"
 	"sigs.k8s.io/controller-runtime/pkg/client"
+
+	"github.com/l7mp/dcontroller/pkg/object"
 )
 
 var _ rest.StandardStorage = &ClientDelegatedStorage{}
@@ -186,6 +190,26 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInfo rest.UpdatedObjectInfo, createValidation rest.ValidateObjectFunc, updateValidation rest.ValidateObjectUpdateFunc, forceAllowCreate bool, options *metav1.UpdateOptions) (runtime.Object, bool, error) {
 	s.log.V(4).Info("UPDATE", "GVR", s.gvr.String(), "name", name)
 
+	// Start over if the object changes between reading and writing it.
+	for range maxUpdateAttempts {
+		obj, created, err := s.tryUpdate(ctx, name, objInfo, createValidation, updateValidation, forceAllowCreate, options)
+		if !errors.Is(err, errObjectChanged) {
+			return obj, created, err
+		}
+	}
+
+	return nil, false, apierrors.NewConflict(s.gvr.GroupResource(), name, errObjectChanged)
+}
+
+// maxUpdateAttempts is the number of times an update is attempted when the object keeps changing.
+const maxUpdateAttempts = 100
+
+// errObjectChanged tells that an object has changed since it was read.
+var errObjectChanged = errors.New("object changed")
+
+// tryUpdate reads and updates an object. It returns errObjectChanged if the object was changed in
+// the meantime.
+func (s *ClientDelegatedStorage) tryUpdate(ctx context.Context, name string, objInfo rest.UpdatedObjectInfo, createValidation rest.ValidateObjectFunc, updateValidation rest.ValidateObjectUpdateFunc, forceAllowCreate bool, options *metav1.UpdateOptions) (runtime.Object, bool, error) {
 	// Get current object.
 	currentObj, err := s.Get(ctx, name, &metav1.GetOptions{})
 	if err != nil {
@@ -202,7 +226,7 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 	}
 
 	// Get updated object.
-	updatedObj, err := objInfo.UpdatedObject(ctx, currentObj)
+	updatedObj, err := objInfo.UpdatedObject(ctx, currentObj.DeepCopyObject())
 	if err != nil {
 		return nil, false, err
 	}
@@ -222,13 +246,38 @@ func (s *ClientDelegatedStorage) Update(ctx context.Context, name string, objInf
 	// Ensure GVK is set correctly.
 	unstructuredObj.SetGroupVersionKind(s.gvk)
 
-	if err := s.delegatingClient.Update(ctx, unstructuredObj, &client.UpdateOptions{Raw: options}); err != nil {
+	err = s.modify(ctx, unstructuredObj, func(stored object.Object) (object.Object, error) {
+		if stored == nil || !equality.Semantic.DeepEqual(stored, currentObj) {
+			return nil, errObjectChanged
+		}
+		return unstructuredObj, nil
+	}, func() error {
+		return s.delegatingClient.Update(ctx, unstructuredObj, &client.UpdateOptions{Raw: options})
+	})
+	if err != nil {
+		if errors.Is(err, errObjectChanged) {
+			return nil, false, err
+		}
 		return nil, false, apierrors.NewInternalError(fmt.Errorf("failed to update %s: %w", name, err))
 	}
 
 	return unstructuredObj, false, nil
 }
 
+// modifier is implemented by the clients that can atomically modify an object.
+type modifier interface {
+	Modify(ctx context.Context, obj object.Object, f func(current object.Object) (object.Object, error)) error
+}
+
+// modify replaces an object with the result of a function that receives the current object, or
+// calls a fallback if the client cannot do this atomically.
+func (s *ClientDelegatedStorage) modify(ctx context.Context, obj object.Object, f func(current object.Object) (object.Object, error), fallback func() error) error {
+	if m, ok := s.delegatingClient.(modifier); ok {
+		return m.Modify(ctx, obj, f)
+	}
+	return fallback()
+}
+
 // Implement the rest.GracefulDeleter interface.
 
 // Delete deletes an object.
-- 
2.43.0


From 17985400eb42d454ee7c94a82002c29d553b134e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:28 +0000
Subject: [PATCH 49/57] fix: honour dry runs, deletion preconditions and
 generated names in the API server

---
 pkg/apiserver/resource_handler.go |  6 ++--
 pkg/apiserver/storage.go          | 56 ++++++++++++++++++++++++++++++-
 2 files changed, 58 insertions(+), 4 deletions(-)

diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index 3e894c1..58a5af8 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -184,12 +184,12 @@ func (h *resourceHandler) routeRequest(
 		handlers.PatchResource(storage, scope, admit, supportedTypes)(w, req)
 
 	case "delete":
-		gracefulDeleter := false
+		allowsOptions := true
 		admit := admission.NewChainHandler()
-		handlers.DeleteResource(storage, gracefulDeleter, scope, admit)(w, req)
+		handlers.DeleteResource(storage, allowsOptions, scope, admit)(w, req)
 
 	case "deletecollection":
-		checkBody := false
+		checkBody := true
 		admit := admission.NewChainHandler()
 		handlers.DeleteCollection(storage, checkBody, scope, admit)(w, req)
 
diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index c8dc13e..6c38fbb 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -17,6 +17,8 @@ import (
 	"k8s.io/apimachinery/pkg/watch"
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	"k8s.io/apiserver/pkg/registry/rest"
+	"k8s.io/apiserver/pkg/storage/names"
+	"k8s.io/apiserver/pkg/util/dryrun"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	"github.com/l7mp/dcontroller/pkg/object"
@@ -174,6 +176,18 @@ func (s *ClientDelegatedStorage) Create(ctx context.Context, obj runtime.Object,
 		}
 	}
 
+	// Generate a name if requested.
+	if unstructuredObj.GetName() == "" {
+		if unstructuredObj.GetGenerateName() == "" {
+			return nil, apierrors.NewBadRequest("name or generateName is required")
+		}
+		unstructuredObj.SetName(names.SimpleNameGenerator.GenerateName(unstructuredObj.GetGenerateName()))
+	}
+
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, nil
+	}
+
 	if err := s.delegatingClient.Create(ctx, unstructuredObj, &client.CreateOptions{Raw: options}); err != nil {
 		if apierrors.IsAlreadyExists(err) {
 			return nil, apierrors.NewAlreadyExists(s.gvr.GroupResource(), unstructuredObj.GetName())
@@ -210,6 +224,10 @@ var errObjectChanged = errors.New("object changed")
 // tryUpdate reads and updates an object. It returns errObjectChanged if the object was changed in
 // the meantime.
 func (s *ClientDelegatedStorage) tryUpdate(ctx context.Context, name string, objInfo rest.UpdatedObjectInfo, createValidation rest.ValidateObjectFunc, updateValidation rest.ValidateObjectUpdateFunc, forceAllowCreate bool, options *metav1.UpdateOptions) (runtime.Object, bool, error) {
+	if options == nil {
+		options = &metav1.UpdateOptions{}
+	}
+
 	// Get current object.
 	currentObj, err := s.Get(ctx, name, &metav1.GetOptions{})
 	if err != nil {
@@ -219,7 +237,7 @@ func (s *ClientDelegatedStorage) tryUpdate(ctx context.Context, name string, obj
 			if err != nil {
 				return nil, false, err
 			}
-			createdObj, err := s.Create(ctx, newObj, createValidation, &metav1.CreateOptions{})
+			createdObj, err := s.Create(ctx, newObj, createValidation, &metav1.CreateOptions{DryRun: options.DryRun})
 			return createdObj, true, err
 		}
 		return nil, false, err
@@ -246,10 +264,14 @@ func (s *ClientDelegatedStorage) tryUpdate(ctx context.Context, name string, obj
 	// Ensure GVK is set correctly.
 	unstructuredObj.SetGroupVersionKind(s.gvk)
 
+	dryRun := dryrun.IsDryRun(options.DryRun)
 	err = s.modify(ctx, unstructuredObj, func(stored object.Object) (object.Object, error) {
 		if stored == nil || !equality.Semantic.DeepEqual(stored, currentObj) {
 			return nil, errObjectChanged
 		}
+		if dryRun {
+			return nil, nil
+		}
 		return unstructuredObj, nil
 	}, func() error {
 		return s.delegatingClient.Update(ctx, unstructuredObj, &client.UpdateOptions{Raw: options})
@@ -298,6 +320,14 @@ func (s *ClientDelegatedStorage) Delete(ctx context.Context, name string, delete
 	}
 
 	unstructuredObj := obj.(*unstructured.Unstructured)
+	if err := checkPreconditions(s.gvr.GroupResource(), unstructuredObj, options); err != nil {
+		return nil, false, err
+	}
+
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return unstructuredObj, true, nil
+	}
+
 	if err := s.delegatingClient.Delete(ctx, unstructuredObj, &client.DeleteOptions{Raw: options}); err != nil {
 		if client.IgnoreNotFound(err) == nil {
 			return nil, false, apierrors.NewNotFound(s.gvr.GroupResource(), name)
@@ -309,6 +339,26 @@ func (s *ClientDelegatedStorage) Delete(ctx context.Context, name string, delete
 	return unstructuredObj, true, nil
 }
 
+// checkPreconditions checks whether an object may be deleted.
+func checkPreconditions(gr schema.GroupResource, obj *unstructured.Unstructured, options *metav1.DeleteOptions) error {
+	if options == nil || options.Preconditions == nil {
+		return nil
+	}
+
+	if uid := options.Preconditions.UID; uid != nil && *uid != obj.GetUID() {
+		return apierrors.NewConflict(gr, obj.GetName(),
+			fmt.Errorf("the UID in the precondition (%s) does not match the UID in record (%s)", *uid, obj.GetUID()))
+	}
+
+	if rv := options.Preconditions.ResourceVersion; rv != nil && *rv != obj.GetResourceVersion() {
+		return apierrors.NewConflict(gr, obj.GetName(),
+			fmt.Errorf("the ResourceVersion in the precondition (%s) does not match the ResourceVersion in record (%s)",
+				*rv, obj.GetResourceVersion()))
+	}
+
+	return nil
+}
+
 // Implement the rest.CollectionDeleter interface.
 
 // DeleteCollection deletes a collection of objects.
@@ -323,6 +373,10 @@ func (s *ClientDelegatedStorage) DeleteCollection(ctx context.Context, deleteVal
 
 	list := listObj.(*unstructured.UnstructuredList)
 
+	if options != nil && dryrun.IsDryRun(options.DryRun) {
+		return list, nil
+	}
+
 	// Delete each object.
 	for _, item := range list.Items {
 		if deleteValidation != nil {
-- 
2.43.0


From 8247058f590264868bc9b985ac739a9feabb86db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 50/57] fix: serve each view with a scheme of its own and
 support server-side apply of absent objects

---
 pkg/apiserver/builder.go          |  3 +-
 pkg/apiserver/registry.go         | 52 +++++++++++--------------------
 pkg/apiserver/resource_handler.go | 46 +++++++++++++++++----------
 pkg/apiserver/storage.go          |  2 +-
 4 files changed, 51 insertions(+), 52 deletions(-)

diff --git a/pkg/apiserver/builder.go b/pkg/apiserver/builder.go
index 0eb4e28..3ee1941 100644
--- a/pkg/apiserver/builder.go
+++ b/pkg/apiserver/builder.go
@@ -57,8 +57,7 @@ func (s *APIServer) buildServer() error {
 	// Chain: resourceHandler -> dynamicVersionHandler -> dynamicGroupHandler -> go-restful
 	resourceHandler := newResourceHandler(resourceHandlerConfig{
 		delegatingClient: s.delegatingClient,
-		scheme:           s.scheme,
-		codecs:           s.codecs,
+		authorizer:       s.config.Authorizer,
 		delegate:         s.dynamicVersionHandler,
 		log:              s.log,
 	})
diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index db83984..59f1a19 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -6,6 +6,7 @@ import (
 	apidiscoveryv2 "k8s.io/api/apidiscovery/v2"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
 	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured"
+	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
 	"k8s.io/apiserver/pkg/endpoints/discovery"
 
@@ -58,12 +59,7 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		return nil
 	}
 
-	// 1. Add types to scheme (idempotent operation).
-	if err := s.addTypesToScheme(gvks); err != nil {
-		return fmt.Errorf("failed to add types to scheme: %w", err)
-	}
-
-	// 2. Register storage in resourceHandler (fully dynamic, no InstallAPIGroup).
+	// 1. Register storage in resourceHandler (fully dynamic, no InstallAPIGroup).
 	for _, gvk := range gvks {
 		resource, err := s.findAPIResource(gvk)
 		if err != nil {
@@ -82,17 +78,17 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		}
 	}
 
-	// 3. Register discovery handlers (idempotent).
+	// 2. Register discovery handlers (idempotent).
 	s.registerDiscoveryHandlers(group, gvks)
 
-	// 4. Update GVK cache.
+	// 3. Update GVK cache.
 	groupedGVKs := make(map[schema.GroupVersionKind]bool)
 	for _, gvk := range gvks {
 		groupedGVKs[gvk] = true
 	}
 	s.groupGVKs[group] = groupedGVKs
 
-	// 5. Invalidate OpenAPI caches.
+	// 4. Invalidate OpenAPI caches.
 	s.cachedOpenAPIDefs = nil
 	s.cachedOpenAPIV3Defs = nil
 
@@ -232,33 +228,23 @@ func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupV
 	}
 }
 
-// addTypesToScheme adds a set of GVKs to the scheme.
-func (s *APIServer) addTypesToScheme(gvks []schema.GroupVersionKind) error {
-	// Group GVKs by GroupVersion
-	groupVersions := make(map[schema.GroupVersion][]schema.GroupVersionKind)
-	for _, gvk := range gvks {
-		gv := gvk.GroupVersion()
-		groupVersions[gv] = append(groupVersions[gv], gvk)
-	}
-
-	// Add types to existing scheme
-	for gv, gvkList := range groupVersions {
-		for _, gvk := range gvkList {
-			// Add meta types for this group version if not already added
-			metav1.AddToGroupVersion(s.scheme, gv)
+// newScheme creates a scheme for serving a single GVK. Requests read the scheme without locking so a
+// scheme must not change once in use.
+func newScheme(gvk schema.GroupVersionKind) (*runtime.Scheme, error) {
+	scheme := runtime.NewScheme()
+	gv := gvk.GroupVersion()
 
-			// Register the unstructured types
-			s.scheme.AddKnownTypeWithName(gvk, &unstructured.Unstructured{})
-			s.scheme.AddKnownTypeWithName(listGVK(gvk), &unstructured.UnstructuredList{})
+	// Add meta types.
+	metav1.AddToGroupVersion(scheme, schema.GroupVersion{Version: "v1"})
+	metav1.AddToGroupVersion(scheme, gv)
 
-			s.log.V(4).Info("added types to scheme", "GVK", gvk.String())
-		}
+	// Register the unstructured types.
+	scheme.AddKnownTypeWithName(gvk, &unstructured.Unstructured{})
+	scheme.AddKnownTypeWithName(listGVK(gvk), &unstructured.UnstructuredList{})
 
-		// Update version priority for this group
-		if err := s.scheme.SetVersionPriority(gv); err != nil {
-			return fmt.Errorf("failed to set version priority for %s: %w", gv.String(), err)
-		}
+	if err := scheme.SetVersionPriority(gv); err != nil {
+		return nil, fmt.Errorf("failed to set version priority for %s: %w", gv.String(), err)
 	}
 
-	return nil
+	return scheme, nil
 }
diff --git a/pkg/apiserver/resource_handler.go b/pkg/apiserver/resource_handler.go
index 58a5af8..ba832c9 100644
--- a/pkg/apiserver/resource_handler.go
+++ b/pkg/apiserver/resource_handler.go
@@ -11,14 +11,18 @@ import (
 	"github.com/go-logr/logr"
 	"k8s.io/apimachinery/pkg/api/meta"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
+	"k8s.io/apimachinery/pkg/apis/meta/v1/unstructured/unstructuredscheme"
 	"k8s.io/apimachinery/pkg/runtime"
 	"k8s.io/apimachinery/pkg/runtime/schema"
+	"k8s.io/apimachinery/pkg/runtime/serializer"
 	"k8s.io/apimachinery/pkg/types"
 	"k8s.io/apimachinery/pkg/util/managedfields"
 	genericapirequest "k8s.io/apiserver/pkg/endpoints/request"
 	"sigs.k8s.io/controller-runtime/pkg/client"
 
 	"k8s.io/apiserver/pkg/admission"
+	"k8s.io/apiserver/pkg/authorization/authorizer"
+	"k8s.io/apiserver/pkg/authorization/authorizerfactory"
 	"k8s.io/apiserver/pkg/endpoints/handlers"
 
 	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
@@ -36,8 +40,7 @@ type resourceHandler struct {
 
 	// Configuration.
 	delegatingClient client.Client
-	scheme           *runtime.Scheme
-	codecs           runtime.NegotiatedSerializer
+	authorizer       authorizer.Authorizer
 
 	// Delegate for non-dynamic requests.
 	delegate http.Handler
@@ -48,8 +51,7 @@ type resourceHandler struct {
 // resourceHandlerConfig provides configuration for creating a resourceHandler.
 type resourceHandlerConfig struct {
 	delegatingClient client.Client
-	scheme           *runtime.Scheme
-	codecs           runtime.NegotiatedSerializer
+	authorizer       authorizer.Authorizer
 	delegate         http.Handler
 	log              logr.Logger
 }
@@ -67,12 +69,16 @@ type servingInfo struct {
 func newResourceHandler(config resourceHandlerConfig) *resourceHandler {
 	handler := &resourceHandler{
 		delegatingClient: config.delegatingClient,
-		scheme:           config.scheme,
-		codecs:           config.codecs,
+		authorizer:       config.authorizer,
 		delegate:         config.delegate,
 		log:              config.log,
 	}
 
+	// Without authorization everything is allowed.
+	if handler.authorizer == nil {
+		handler.authorizer = authorizerfactory.NewAlwaysAllowAuthorizer()
+	}
+
 	// Initialize with empty map.
 	handler.storage.Store(make(storageMap))
 
@@ -269,14 +275,21 @@ func (h *resourceHandler) createServingInfo(
 		log:               h.log,
 	}
 
+	scheme, err := newScheme(gvk)
+	if err != nil {
+		return nil, fmt.Errorf("failed to create scheme: %w", err)
+	}
+	creater := unstructuredscheme.NewUnstructuredCreator() //nolint:misspell
+	codecs := NewCompositeCodecFactory(serializer.NewCodecFactory(scheme), scheme)
+
 	// Create FieldManager for managedFields tracking.
 	// Use the default CRD field manager which works with unstructured objects.
 	typeConverter := managedfields.NewDeducedTypeConverter()
 	fieldManager, err := managedfields.NewDefaultCRDFieldManager(
 		typeConverter,
-		h.scheme, // objectConverter
-		h.scheme, // objectDefaulter
-		h.scheme, // objectCreater
+		scheme, // objectConverter
+		scheme, // objectDefaulter
+		creater,
 		gvk,
 		gvk.GroupVersion(),
 		"",  // subresource (empty for main resource)
@@ -293,14 +306,15 @@ func (h *resourceHandler) createServingInfo(
 			Namer:         runtime.Namer(meta.NewAccessor()),
 			ClusterScoped: !resource.APIResource.Namespaced,
 		},
-		Serializer:      h.codecs,
-		ParameterCodec:  runtime.NewParameterCodec(h.scheme),
-		Creater:         h.scheme, //nolint:misspell
-		Convertor:       h.scheme,
-		Defaulter:       h.scheme,
-		Typer:           h.scheme,
-		UnsafeConvertor: runtime.UnsafeObjectConvertor(h.scheme),
+		Serializer:      codecs,
+		ParameterCodec:  runtime.NewParameterCodec(scheme),
+		Creater:         creater, //nolint:misspell
+		Convertor:       scheme,
+		Defaulter:       scheme,
+		Typer:           scheme,
+		UnsafeConvertor: runtime.UnsafeObjectConvertor(scheme),
 		TableConvertor:  storage, // For kubectl output.
+		Authorizer:      h.authorizer,
 
 		Resource:         gvr,
 		Kind:             gvk,
diff --git a/pkg/apiserver/storage.go b/pkg/apiserver/storage.go
index 6c38fbb..ffc542d 100644
--- a/pkg/apiserver/storage.go
+++ b/pkg/apiserver/storage.go
@@ -233,7 +233,7 @@ func (s *ClientDelegatedStorage) tryUpdate(ctx context.Context, name string, obj
 	if err != nil {
 		if apierrors.IsNotFound(err) && forceAllowCreate {
 			// Create new object
-			newObj, err := objInfo.UpdatedObject(ctx, nil)
+			newObj, err := objInfo.UpdatedObject(ctx, s.New())
 			if err != nil {
 				return nil, false, err
 			}
-- 
2.43.0


From 9858903f000c4ca75fce0fac5cf44ca3a6e56d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:36 +0000
Subject: [PATCH 51/57] fix: lock for writing when caching OpenAPI definitions

---
 pkg/apiserver/openapi.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pkg/apiserver/openapi.go b/pkg/apiserver/openapi.go
index 2fe8460..c2f7a98 100644
--- a/pkg/apiserver/openapi.go
+++ b/pkg/apiserver/openapi.go
@@ -26,9 +26,9 @@ func (s *APIServer) getOpenAPIv2Handler() openapicommon.GetOpenAPIDefinitions {
 
 		defs := s.generateOpenAPIDefs(ref)
 
-		s.mu.RLock()
+		s.mu.Lock()
 		s.cachedOpenAPIDefs = defs
-		s.mu.RUnlock()
+		s.mu.Unlock()
 
 		return defs
 	}
@@ -87,9 +87,9 @@ func (s *APIServer) getOpenAPIv3Handler() openapicommon.GetOpenAPIDefinitions {
 		}
 
 		defs := s.generateOpenAPIDefs(ref)
-		s.mu.RLock()
+		s.mu.Lock()
 		s.cachedOpenAPIV3Defs = defs
-		s.mu.RUnlock()
+		s.mu.Unlock()
 
 		return defs
 	}
-- 
2.43.0


From 80ada5ea96b8f8343185b8f098702774bc4759cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:45 +0000
Subject: [PATCH 52/57] fix: list the verbs of views in discovery

---
 pkg/apiserver/registry.go | 2 +-
 pkg/apiserver/resource.go | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index 59f1a19..77a1e82 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -203,7 +203,7 @@ func (s *APIServer) registerDiscoveryHandlers(group string, gvks []schema.GroupV
 				ResponseKind:     &metav1.GroupVersionKind{Group: gvk.Group, Version: gvk.Version, Kind: gvk.Kind},
 				Scope:            apidiscoveryv2.ScopeNamespace, // All views are namespaced
 				SingularResource: resource.APIResource.SingularName,
-				Verbs:            []string{"get", "list", "create", "update", "patch", "delete", "watch"},
+				Verbs:            verbs,
 			})
 		}
 
diff --git a/pkg/apiserver/resource.go b/pkg/apiserver/resource.go
index a0bc7a7..1d504f0 100644
--- a/pkg/apiserver/resource.go
+++ b/pkg/apiserver/resource.go
@@ -20,6 +20,9 @@ type Resource struct {
 	HasStatus bool
 }
 
+// verbs are the operations available on views.
+var verbs = metav1.Verbs{"create", "delete", "deletecollection", "get", "list", "patch", "update", "watch"}
+
 // findAPIResource is a helper to obtain an API Resource from a GVK. For views the properties are
 // hardcoded, for native resources use the discovery API.
 func (s *APIServer) findAPIResource(gvk schema.GroupVersionKind) (*Resource, error) {
@@ -40,6 +43,7 @@ func (s *APIServer) findAPIResource(gvk schema.GroupVersionKind) (*Resource, err
 			Group:        gvk.Group,
 			Version:      gvk.Version,
 			Kind:         gvk.Kind,
+			Verbs:        verbs,
 		},
 		HasStatus: true,
 	}, nil
-- 
2.43.0


From 0651d591ab4c97c76ca7799211ec883621649781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:53 +0000
Subject: [PATCH 53/57] fix: remove the views left out when an API group is
 registered again and ignore duplicates

---
 pkg/apiserver/registry.go | 45 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/pkg/apiserver/registry.go b/pkg/apiserver/registry.go
index 77a1e82..d10c244 100644
--- a/pkg/apiserver/registry.go
+++ b/pkg/apiserver/registry.go
@@ -2,6 +2,7 @@ package apiserver
 
 import (
 	"fmt"
+	"slices"
 
 	apidiscoveryv2 "k8s.io/api/apidiscovery/v2"
 	metav1 "k8s.io/apimachinery/pkg/apis/meta/v1"
@@ -59,7 +60,15 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		return nil
 	}
 
+	// Ignore everything that is not a view and the duplicates. A group without views is no group.
+	gvks = uniqueViewGVKs(gvks)
+	if len(gvks) == 0 {
+		s.unregisterAPIGroup(group)
+		return nil
+	}
+
 	// 1. Register storage in resourceHandler (fully dynamic, no InstallAPIGroup).
+	registered := make(map[schema.GroupVersionResource]bool)
 	for _, gvk := range gvks {
 		resource, err := s.findAPIResource(gvk)
 		if err != nil {
@@ -76,19 +85,23 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 		if err := s.resourceHandler.addStorage(gvr, gvk, resource); err != nil {
 			return fmt.Errorf("failed to add storage for %s: %w", gvk.String(), err)
 		}
+		registered[gvr] = true
 	}
 
 	// 2. Register discovery handlers (idempotent).
 	s.registerDiscoveryHandlers(group, gvks)
 
-	// 3. Update GVK cache.
+	// 3. Remove the resources that are no longer in the group.
+	s.removeStale(group, registered)
+
+	// 4. Update GVK cache.
 	groupedGVKs := make(map[schema.GroupVersionKind]bool)
 	for _, gvk := range gvks {
 		groupedGVKs[gvk] = true
 	}
 	s.groupGVKs[group] = groupedGVKs
 
-	// 4. Invalidate OpenAPI caches.
+	// 5. Invalidate OpenAPI caches.
 	s.cachedOpenAPIDefs = nil
 	s.cachedOpenAPIV3Defs = nil
 
@@ -96,11 +109,39 @@ func (s *APIServer) RegisterAPIGroup(group string, gvks []schema.GroupVersionKin
 	return nil
 }
 
+// uniqueViewGVKs returns the GVKs of views in a list, each of them once.
+func uniqueViewGVKs(gvks []schema.GroupVersionKind) []schema.GroupVersionKind {
+	unique := make([]schema.GroupVersionKind, 0, len(gvks))
+	for _, gvk := range gvks {
+		if viewv1a1.IsViewKind(gvk) && !slices.Contains(unique, gvk) {
+			unique = append(unique, gvk)
+		}
+	}
+	return unique
+}
+
+// removeStale removes the resources of a group that an earlier registration added but the current
+// one does not contain.
+func (s *APIServer) removeStale(group string, registered map[schema.GroupVersionResource]bool) {
+	for gvk := range s.groupGVKs[group] {
+		if resource, err := s.findAPIResource(gvk); err == nil {
+			gvr := gvk.GroupVersion().WithResource(resource.APIResource.Name)
+			if !registered[gvr] {
+				s.resourceHandler.removeStorage(gvr)
+			}
+		}
+	}
+}
+
 // UnregisterAPIGroup removes an API group with all its registered GVKs.
 func (s *APIServer) UnregisterAPIGroup(group string) {
 	s.mu.Lock()
 	defer s.mu.Unlock()
+	s.unregisterAPIGroup(group)
+}
 
+// unregisterAPIGroup removes an API group, called with the lock held.
+func (s *APIServer) unregisterAPIGroup(group string) {
 	gvks, ok := s.groupGVKs[group]
 	if !ok {
 		// Not registered, silently return.
-- 
2.43.0


From ce862b10ab33a63d4fcb4c3f1c25ac714c79bfb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:45 +0000
Subject: [PATCH 54/57] fix: draw every flow of views in operator diagrams

---
 pkg/visualize/visualize.go | 55 +++++++++++++++++++++++++++-----------
 1 file changed, 39 insertions(+), 16 deletions(-)

diff --git a/pkg/visualize/visualize.go b/pkg/visualize/visualize.go
index d4a829a..ce774be 100644
--- a/pkg/visualize/visualize.go
+++ b/pkg/visualize/visualize.go
@@ -108,19 +108,17 @@ func extractPipelineStages(pipeline opv1a1.Pipeline) []string {
 // buildConnections identifies connections between controllers via views.
 func (g *Graph) buildConnections() {
 	// Map of view kinds to the controllers that produce them and their target type.
-	viewProducers := make(map[string]struct {
+	type producer struct {
 		controller string
 		targetType string
-	})
+	}
+	viewProducers := make(map[string][]producer)
 
 	// First pass: identify which controllers produce which views.
 	for _, ctrl := range g.Controllers {
 		if isView(ctrl.Target) {
 			viewKey := resourceKey(ctrl.Target)
-			viewProducers[viewKey] = struct {
-				controller string
-				targetType string
-			}{ctrl.Name, ctrl.Target.Type}
+			viewProducers[viewKey] = append(viewProducers[viewKey], producer{ctrl.Name, ctrl.Target.Type})
 		}
 	}
 
@@ -129,7 +127,7 @@ func (g *Graph) buildConnections() {
 		for _, src := range ctrl.Sources {
 			if isView(src) {
 				viewKey := resourceKey(src)
-				if producer, exists := viewProducers[viewKey]; exists {
+				for _, producer := range viewProducers[viewKey] {
 					g.Connections = append(g.Connections, Connection{
 						FromController: producer.controller,
 						ToController:   ctrl.Name,
@@ -171,6 +169,21 @@ func (g *Graph) IsTerminalView(ctrl ControllerNode) bool {
 	return true
 }
 
+// isExternalView checks if a view is produced outside of the operator (consumed but not produced by
+// any controller).
+func (g *Graph) isExternalView(ref ResourceRef) bool {
+	if !isView(ref) {
+		return false
+	}
+
+	for _, c := range g.Controllers {
+		if resourceKey(c.Target) == resourceKey(ref) {
+			return false
+		}
+	}
+	return true
+}
+
 // FormatGVK formats a resource reference as a GVK string for display (without type).
 func FormatGVK(ref ResourceRef) string {
 	parts := []string{}
@@ -233,7 +246,8 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 	// Create source nodes and edges.
 	for _, ctrl := range g.Controllers {
 		for _, src := range ctrl.Sources {
-			if !isView(src) {
+			// Show non-view sources and views produced elsewhere.
+			if !isView(src) || g.isExternalView(src) {
 				key := resourceKey(src)
 				srcNode, exists := sourceNodes[key]
 				if !exists {
@@ -297,6 +311,21 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 	// Connect controllers via views with explicit view nodes.
 	viewNodes := make(map[string]dot.Node)
 
+	// A view can have multiple writers and readers, so the same edge may occur in more connections.
+	type viewEdge struct{ from, to, label string }
+	viewEdges := make(map[viewEdge]bool)
+	connect := func(from, to dot.Node, label string) {
+		edge := viewEdge{from.ID(), to.ID(), label}
+		if viewEdges[edge] {
+			return
+		}
+		viewEdges[edge] = true
+		graph.Edge(from, to).
+			Attr("label", label).
+			Attr("fontname", "helvetica").
+			Attr("fontsize", "10")
+	}
+
 	for _, conn := range g.Connections {
 		fromNode, fromExists := controllerNodes[conn.FromController]
 		toNode, toExists := controllerNodes[conn.ToController]
@@ -334,20 +363,14 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 		if targetType == "" {
 			targetType = "Updater"
 		}
-		graph.Edge(fromNode, viewNode).
-			Attr("label", targetType).
-			Attr("fontname", "helvetica").
-			Attr("fontsize", "10")
+		connect(fromNode, viewNode, targetType)
 
 		// Create edge from view node to reader.
 		sourceType := conn.SourceType
 		if sourceType == "" {
 			sourceType = "Watcher"
 		}
-		graph.Edge(viewNode, toNode).
-			Attr("label", sourceType).
-			Attr("fontname", "helvetica").
-			Attr("fontsize", "10")
+		connect(viewNode, toNode, sourceType)
 	}
 
 	return graph
-- 
2.43.0


From 28101b76b909991fd4327543d30bf675aaffc092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:50 +0000
Subject: [PATCH 55/57] fix: tell views from native resources in operator
 diagrams by their group

---
 pkg/visualize/visualize.go | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/pkg/visualize/visualize.go b/pkg/visualize/visualize.go
index ce774be..e48a92f 100644
--- a/pkg/visualize/visualize.go
+++ b/pkg/visualize/visualize.go
@@ -7,6 +7,7 @@ import (
 
 	"github.com/emicklei/dot"
 	opv1a1 "github.com/l7mp/dcontroller/pkg/api/operator/v1alpha1"
+	viewv1a1 "github.com/l7mp/dcontroller/pkg/api/view/v1alpha1"
 )
 
 // Graph represents the visualization graph of an operator.
@@ -30,6 +31,7 @@ type ResourceRef struct {
 	Version string
 	Kind    string
 	Type    string // Source type (Watcher/Periodic/OneShot) or Target type (Updater/Patcher)
+	View    bool   // Whether this is a view of the operator itself
 }
 
 // Connection represents an edge between two controllers (via a view).
@@ -55,7 +57,7 @@ func BuildGraph(op *opv1a1.Operator) *Graph {
 			Name:     ctrl.Name,
 			Sources:  make([]ResourceRef, len(ctrl.Sources)),
 			Pipeline: extractPipelineStages(ctrl.Pipeline),
-			Target:   buildResourceRef(ctrl.Target.Resource, string(ctrl.Target.Type)),
+			Target:   buildResourceRef(op.Name, ctrl.Target.Resource, string(ctrl.Target.Type)),
 		}
 
 		for i, src := range ctrl.Sources {
@@ -63,7 +65,7 @@ func BuildGraph(op *opv1a1.Operator) *Graph {
 			if srcType == "" {
 				srcType = "Watcher"
 			}
-			node.Sources[i] = buildResourceRef(src.Resource, srcType)
+			node.Sources[i] = buildResourceRef(op.Name, src.Resource, srcType)
 		}
 
 		g.Controllers = append(g.Controllers, node)
@@ -76,7 +78,7 @@ func BuildGraph(op *opv1a1.Operator) *Graph {
 }
 
 // buildResourceRef creates a ResourceRef from a Resource and type.
-func buildResourceRef(res opv1a1.Resource, resType string) ResourceRef {
+func buildResourceRef(operator string, res opv1a1.Resource, resType string) ResourceRef {
 	group := ""
 	if res.Group != nil {
 		group = *res.Group
@@ -91,6 +93,7 @@ func buildResourceRef(res opv1a1.Resource, resType string) ResourceRef {
 		Version: version,
 		Kind:    res.Kind,
 		Type:    resType,
+		View:    res.Group == nil || group == viewv1a1.Group(operator),
 	}
 }
 
@@ -141,13 +144,20 @@ func (g *Graph) buildConnections() {
 	}
 }
 
-// isView checks if a resource is a view (either has "View" in kind or view.dcontroller.io in group).
+// isView checks if a resource is a view of this or another operator.
 func isView(ref ResourceRef) bool {
-	return strings.Contains(ref.Kind, "View") || strings.Contains(ref.Group, "view.dcontroller.io")
+	return ref.View || viewv1a1.IsViewGroup(ref.Group)
 }
 
 // resourceKey creates a unique key for a resource.
 func resourceKey(ref ResourceRef) string {
+	if ref.View {
+		// The group can be omitted and the version is ignored.
+		return fmt.Sprintf("view:%s", ref.Kind)
+	}
+	if isView(ref) && ref.Version == "" {
+		ref.Version = viewv1a1.Version
+	}
 	return fmt.Sprintf("%s/%s/%s", ref.Group, ref.Version, ref.Kind)
 }
 
-- 
2.43.0


From db07151e3ffe93d18e1db666adc5e7c65b2f67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:55 +0000
Subject: [PATCH 56/57] fix: keep controllers apart from resources in operator
 diagrams

---
 pkg/visualize/visualize.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/visualize/visualize.go b/pkg/visualize/visualize.go
index e48a92f..d6ca6aa 100644
--- a/pkg/visualize/visualize.go
+++ b/pkg/visualize/visualize.go
@@ -241,7 +241,8 @@ func BuildDotGraph(g *Graph) *dot.Graph {
 			}
 		}
 
-		node := graph.Node(ctrl.Name).
+		// Keep the ids of controllers apart from those of the resources.
+		node := graph.Node("controller:"+ctrl.Name).
 			Attr("label", label).
 			Attr("shape", "box").
 			Attr("style", "filled,rounded").
-- 
2.43.0


From 0a9b4be0cd8b53df642848d113f3afe20fb8b1a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:07 +0000
Subject: [PATCH 57/57] fix: keep documents with different binary strings apart

Marshaling replaces all invalid UTF-8 bytes with the replacement
character, so documents that differed only in binary data (e.g., in a
decoded Secret) had the same key and their changes cancelled out.
---
 pkg/dbsp/document.go | 40 +++++++++++++++++++++++++++++++++++++---
 1 file changed, 37 insertions(+), 3 deletions(-)

diff --git a/pkg/dbsp/document.go b/pkg/dbsp/document.go
index 50c830d..d8d565d 100644
--- a/pkg/dbsp/document.go
+++ b/pkg/dbsp/document.go
@@ -3,6 +3,8 @@ package dbsp
 import (
 	"encoding/json"
 	"fmt"
+	"strings"
+	"unicode/utf8"
 )
 
 // Document represents an unstructured document as map[string]any.  Can contain embedded maps,
@@ -38,7 +40,7 @@ func toCanonicalForm(val any) (any, error) {
 			if err != nil {
 				return nil, newZSetError(fmt.Sprintf("failed to canonicalize map field '%s'", k), err)
 			}
-			result[k] = canonical
+			result[canonicalString(k)] = canonical
 		}
 		return result, nil
 
@@ -54,7 +56,10 @@ func toCanonicalForm(val any) (any, error) {
 		}
 		return result, nil
 
-	case int64, float64, string, bool, nil:
+	case string:
+		return canonicalString(v), nil
+
+	case int64, float64, bool, nil:
 		// Primitives are already canonical
 		return v, nil
 
@@ -64,6 +69,30 @@ func toCanonicalForm(val any) (any, error) {
 	}
 }
 
+// canonicalString makes sure that different strings have different JSON representations: marshaling
+// would replace all invalid UTF-8 bytes (e.g., in binary Secret data) with the replacement character.
+func canonicalString(s string) string {
+	if !strings.ContainsRune(s, utf8.RuneError) { // also finds invalid UTF-8
+		return s
+	}
+
+	var b strings.Builder
+	for i := 0; i < len(s); {
+		r, size := utf8.DecodeRuneInString(s[i:])
+		switch {
+		case r != utf8.RuneError:
+			b.WriteString(s[i : i+size])
+		case size == 1:
+			fmt.Fprintf(&b, "%c%02x", utf8.RuneError, s[i])
+		default:
+			b.WriteString(strings.Repeat(string(utf8.RuneError), 2))
+		}
+		i += size
+	}
+
+	return b.String()
+}
+
 // DeepEqual checks if two documents are equal using JSON comparison.
 func DeepEqual(a, b Document) (bool, error) {
 	keyA, err := computeJSONKey(a)
@@ -114,7 +143,12 @@ func DeepCopyDocument(val any) Document {
 
 // computeJSONAny creates a deterministic JSON representation for an arbitrary any value.
 func computeJSONAny(doc any) (string, error) {
-	bytes, err := json.Marshal(doc)
+	canonical, err := toCanonicalForm(doc)
+	if err != nil {
+		return "", fmt.Errorf("failed to convert value to canonical form: %w", err)
+	}
+
+	bytes, err := json.Marshal(canonical)
 	if err != nil {
 		return "", fmt.Errorf("failed to marshal value to JSON: %w", err)
 	}
-- 
2.43.0

