#!/usr/bin/env python3
"""Generates /verif/properties.jsonl (the committed list of properties)."""
import json, os
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe, state=()):
    assert len(title) <= 80, (id, len(title))
    P.append({"id": id, "title": title, "statement": statement,
      "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
      "anchors": {"files": files,
        "state": [{"name": n, "meaning": m, "where": w} for (n, m, w) in state],
        "mechanism": [{"name": n, "where": w} for (n, w) in mech],
        "observe_at": observe, "hook_needed": None}})

prop("C01", "Incremental pipeline output equals evaluation from scratch",
 "For every pipeline built from join, select, project, unwind and gather stages and every history of add, update and delete events on its sources, applying the emitted deltas in order to an initially empty target gives exactly the objects that evaluating the pipeline from scratch on the current source objects gives. This holds after every single event, whatever the interleaving of events of different sources, and when all source objects are gone the target is empty.",
 ["programs", "histories"], "all pipelines over 1-3 sources from a stage grammar; all finite event histories (add/update/replace/upsert/delete, deletes carrying stale content included)",
 "Existing tests run a few fixed pipelines over 3-10 fixed events; the claim is over every pipeline and every history, where errors appear only after particular update/delete sequences across several sources.",
 ["pkg/pipeline/pipeline.go", "pkg/pipeline/op.go", "pkg/pipeline/zset_adaptor.go", "pkg/dbsp/executor.go", "pkg/dbsp/op_bilinear.go", "pkg/dbsp/op_linear.go", "pkg/dbsp/op_nonlinear.go", "pkg/dbsp/op_misc.go", "pkg/dbsp/fused_op.go"],
 [("event to delta conversion", "pkg/pipeline/zset_adaptor.go"), ("incremental n-ary join", "pkg/dbsp/op_bilinear.go"), ("gather lifted through integrate/differentiate", "pkg/dbsp/op_nonlinear.go"), ("net-effect reconciliation against the target cache", "pkg/pipeline/zset_adaptor.go Reconcile")],
 ["deltas returned by the evaluator, replayed into a map"],
 [("source caches", "last known source objects", "pkg/pipeline/pipeline.go"), ("operator state", "integrators, delays, join inputs", "pkg/dbsp")])

prop("C02", "Emitted deltas are minimal, ordered and well formed",
 "Each evaluation of a pipeline emits at most one delta per target object, only upserts and deletions, all deletions before all upserts, every object carrying the target's type and a name, and a deletion only for an object that the target holds. An event that carries no content change (a resync or a repeat of the current content) emits nothing, an event that leaves an object of the required target unchanged emits nothing for that object (unless several documents map to it), and an event that is rejected with an error changes nothing in later results.",
 ["programs", "histories", "inputs"], "all pipelines of the C01 grammar, all histories including repeated, rejected (delete of an unknown object, malformed result) and no-op events",
 "Tests check single expected deltas for single events; duplicates, wrong order, spurious or missing deltas depend on map iteration order and on the whole preceding history.",
 ["pkg/pipeline/zset_adaptor.go", "pkg/pipeline/pipeline.go", "pkg/dbsp/op_nonlinear.go"],
 [("no-op suppression", "pkg/pipeline/zset_adaptor.go ConvertDeltaToZSet"), ("grouping and ordering of deltas", "pkg/pipeline/zset_adaptor.go Reconcile")],
 ["deltas and errors returned by the evaluator"],
 [("target cache", "objects the pipeline believes are in the target", "pkg/pipeline/pipeline.go")])

prop("C03", "Resynchronization restores exactly the required target state",
 "Resynchronizing a pipeline at any point of a history emits deltas that turn the current target, including one that has drifted, into exactly the result of evaluating the pipeline from scratch on the current sources: deletions for exactly the target objects that do not belong, and upserts that restore every object that does. Repeating it leaves the target as it is, and events processed afterwards are handled as if no resynchronization had happened. This holds for every pipeline the system accepts.",
 ["programs", "histories", "configurations"], "all pipelines of the grammar (incl. unwind and gather), all histories with resynchronizations and target drift inserted at any point",
 "The unit tests resynchronize only select/project/join pipelines in a handful of fixed states.",
 ["pkg/pipeline/pipeline.go", "pkg/dbsp/graph_converter.go", "pkg/dbsp/executor.go"],
 [("snapshot graph conversion", "pkg/dbsp/graph_converter.go"), ("state diff", "pkg/pipeline/pipeline.go Sync")],
 ["deltas returned by Sync and by later Evaluate calls"],
 [("source and target caches", "inputs of the snapshot evaluation", "pkg/pipeline/pipeline.go")])

prop("C04", "Query rewriting and execution modes never change results",
 "For every operator graph, the optimized graph, the unoptimized graph, the snapshot form and the incremental form compute the same result: the sum of the incremental outputs over any sequence of input deltas equals the snapshot evaluation of the summed inputs, and joins equal the filtered Cartesian product with multiplied multiplicities. Splitting or merging deltas into batches does not change the accumulated output, and resetting an executor makes it behave like a fresh one.",
 ["programs", "histories"], "all linear chains of the operator set with 1-3 inputs, all sequences of weighted input deltas (positive and negative multiplicities)",
 "Rewrite tests cover fixed chains and compare on one or two fixed documents; equivalence is a claim over all chains and delta sequences.",
 ["pkg/dbsp/rewrite_engine.go", "pkg/dbsp/fused_op.go", "pkg/dbsp/chain.go", "pkg/dbsp/executor.go", "pkg/dbsp/graph_converter.go", "pkg/dbsp/op_bilinear.go"],
 [("rewrite rules", "pkg/dbsp/rewrite_engine.go"), ("fused operators", "pkg/dbsp/fused_op.go"), ("incremental/snapshot joins", "pkg/dbsp/op_bilinear.go"), ("executor", "pkg/dbsp/executor.go")],
 ["output multisets of executors"])

prop("C05", "Weighted document multisets obey the algebra of Z-sets",
 "Weighted multisets of documents form an abelian group under addition and subtraction, with documents identified by structural content irrespective of key order; distinct keeps exactly the documents of positive weight with weight one. Counts, sizes, membership and listing agree with the weights, entries of weight zero vanish, and, apart from the in-place insertion, no operation changes its operands or shares mutable content with documents passed in; documents handed out are copies.",
 ["inputs", "histories"], "all finite sequences of multiset operations on arbitrary JSON documents and integer weights",
 "Tests use a handful of example documents; algebraic laws and non-aliasing quantify over all operands.",
 ["pkg/dbsp/zset.go", "pkg/dbsp/document.go"],
 [("canonical document key", "pkg/dbsp/document.go"), ("multiset operations", "pkg/dbsp/zset.go")],
 ["return values of the multiset API"])

prop("C06", "Pipeline evaluation isolates callers and internal state",
 "Evaluating events never modifies the event objects given by the caller, and modifying such an object after the call, or modifying an emitted object, never changes what later evaluations return. Two pipelines fed the same history give the same accumulated target, independent of internal iteration order.",
 ["programs", "histories"], "all pipelines and histories of the C01 grammar with caller-side mutations of passed-in and handed-out objects between events",
 "No test mutates objects after handing them over; aliasing shows only in particular copy/projection combinations.",
 ["pkg/pipeline/pipeline.go", "pkg/pipeline/zset_adaptor.go", "pkg/pipeline/op.go", "pkg/dbsp/fused_op.go", "pkg/expression/jsonpath.go"],
 [("deep copies at the pipeline boundary", "pkg/pipeline/zset_adaptor.go"), ("document copies inside operators", "pkg/dbsp")],
 ["objects passed to and returned from the evaluator"])

prop("C07", "Expressions evaluate as the language reference specifies",
 "Every expression built from the documented operators (logical, conditional, comparison, list, string, arithmetic, conversion, utility) returns the value the language reference specifies on every subject document, or an error when its arguments have the wrong type. Logical, conditional and default operators evaluate lazily, list operators bind the local subject to each item while the global subject stays available, and evaluation is deterministic and never modifies the subject.",
 ["programs", "inputs"], "all expressions of a typed grammar up to a depth bound, all JSON documents, including absent fields and wrong types",
 "Table tests cover each operator with a few inputs; composition, laziness, numeric typing and local/global scoping quantify over all expression trees and documents.",
 ["pkg/expression/expression.go", "pkg/expression/converter.go", "pkg/expression/selector.go", "doc/reference-expression.md"],
 [("expression interpreter", "pkg/expression/expression.go"), ("type conversion", "pkg/expression/converter.go")],
 ["values and errors returned by expression evaluation"])

prop("C08", "Expressions and pipelines survive serialization; bad input is rejected",
 "Serializing a parsed expression, pipeline or operator specification and parsing it again gives one that evaluates identically, and so does a deep copy, which shares nothing with its original. Arbitrary bytes and arbitrary JSON given as expression, pipeline or predicate are either accepted or rejected with an error, and evaluating whatever was accepted on any document returns a value or an error; nothing ever crashes.",
 ["inputs", "programs"], "all JSON values as expressions and pipelines; all byte strings; all subject documents",
 "Tests parse known-good snippets only.",
 ["pkg/expression/marshaler.go", "pkg/expression/expression.go", "pkg/api/operator/v1alpha1/pipeline_types.go", "pkg/api/operator/v1alpha1/zz_generated.deepcopy.go", "pkg/pipeline/pipeline.go"],
 [("expression codec", "pkg/expression/marshaler.go"), ("pipeline codec", "pkg/api/operator/v1alpha1/pipeline_types.go")],
 ["JSON codec, deep copies, evaluation results"])

prop("C09", "Path access reads and writes exactly the addressed field",
 "Reading a path returns the addressed value, or null when absent; writing a path creates missing parents, makes a subsequent read of that path return the written value and leaves every field outside the path unchanged. In an object constructor a key that is a path sets that path, any other key (dots included) is a literal field name, and sequential projection steps merge into the result built so far with later steps overriding earlier ones.",
 ["inputs", "programs"], "all field/index paths over arbitrary documents; all lists of projection steps",
 "Tests use fixed paths on a fixed document.",
 ["pkg/expression/jsonpath.go", "pkg/expression/expression.go", "pkg/object/utils.go", "pkg/pipeline/op.go"],
 [("path getter/setter", "pkg/expression/jsonpath.go"), ("step merging", "pkg/object/utils.go MergeAny")],
 ["results of path reads and writes and of projections"])

prop("C10", "Object patches follow merge-patch rules and never alias",
 "Patching an object sets every field given in the patch, recursively for nested maps and element by element for lists, removes exactly the fields given as null and keeps everything else. Patching is idempotent, never modifies the patch, and the result shares no mutable content with the patch, so that copies, patches and merges can be modified independently.",
 ["inputs"], "all pairs of JSON objects and patches",
 "Tests contain a dozen fixed object/patch pairs.",
 ["pkg/object/patch.go", "pkg/object/utils.go", "pkg/object/object.go"],
 [("recursive patch", "pkg/object/patch.go"), ("deep copy", "pkg/object/utils.go")],
 ["patched objects"])

prop("C11", "Targets write exactly what their type promises",
 "An updating target creates a missing object, makes an existing one equal to the delta outside its metadata while keeping labels and annotations it does not mention, and deletes on a deletion. A patching target changes only the fields that the delta mentions, never creates objects, and on a deletion removes exactly the mentioned fields while keeping the object and its identity. Repeating a write changes nothing, deleting an absent object is no error, and every other object stays untouched.",
 ["histories", "inputs", "configurations"], "all histories of writes through both target types on view and native resources with arbitrary contents",
 "Tests write one or two fixed deltas per target type.",
 ["pkg/reconciler/target.go", "pkg/reconciler/ctrlutils.go", "pkg/object/patch.go", "pkg/cache/view_client.go", "pkg/cache/client.go"],
 [("updater and patcher", "pkg/reconciler/target.go"), ("create-or-update, update with status", "pkg/reconciler/ctrlutils.go")],
 ["object store contents after each write"])

prop("C12", "The view store behaves as a keyed object store",
 "Under any sequence of creates, updates, patches, status updates, deletions, bulk deletions, gets and lists through the view client and store, results equal those of a map from (view type, namespace, name) to object: reads return the last written content, absent objects give not-found errors, and lists return exactly the objects of that view type matching the namespace and label selector. Objects handed in or out are copies, so changing them never changes the store.",
 ["histories", "inputs"], "all operation sequences over several views, namespaces and names with arbitrary contents and list options",
 "Tests do single operations on one or two objects.",
 ["pkg/cache/view_cache.go", "pkg/cache/view_client.go", "pkg/cache/store.go", "pkg/cache/client.go"],
 [("per-type indexers", "pkg/cache/view_cache.go"), ("view client", "pkg/cache/view_client.go")],
 ["results and errors of client and cache calls"],
 [("indexers", "one object index per view type", "pkg/cache/view_cache.go")])

prop("C13", "Watchers of a view can reconstruct its content from events",
 "Every watcher and event handler of a view, whenever attached, sees the objects existing at that time followed by exactly one event per later change in order, so that replaying the events gives the view's content; an update reports the previous and the new object, an update without content change reports nothing, and deletion of an object is reported once. Namespace and label restricted watchers see only matching objects, and stopping one watcher or handler neither blocks nor affects the others.",
 ["histories", "schedules"], "all operation sequences with watchers and handlers attached and detached at any point, and concurrent writers",
 "Tests attach one watcher and perform one or two changes.",
 ["pkg/cache/view_cache.go", "pkg/cache/view_cache_informer.go", "pkg/cache/delegating_view_cache.go"],
 [("watcher registry and notification", "pkg/cache/view_cache.go"), ("informer fan-out", "pkg/cache/view_cache_informer.go")],
 ["events delivered to watchers and informer handlers"],
 [("watchers", "active watches", "pkg/cache/view_cache.go"), ("informers", "handlers per view type", "pkg/cache/view_cache.go")])

prop("C14", "Operators share the view store without interfering",
 "All operators attached to the same shared store see the same objects of any operator's views, through reads, lists, watches and informers alike, and views of equal kind that belong to different operators are distinct. Detaching or stopping one operator's cache leaves the data and the subscriptions of the others intact.",
 ["histories", "configurations"], "all interleavings of operations through several delegating caches over shared storage, with caches started and stopped",
 "Tests use two caches and one object.",
 ["pkg/cache/delegating_view_cache.go", "pkg/cache/composite.go", "pkg/cache/api.go", "pkg/cache/view_cache.go"],
 [("delegation to the shared store", "pkg/cache/delegating_view_cache.go"), ("routing between view and native caches", "pkg/cache/composite.go")],
 ["results of cache calls through each operator's cache"])

prop("C15", "View identities are stable, unique and round-trip",
 "The mapping between an operator's view kind and its API type, resource, list and event-source identity is a bijection: mapping there and back gives the original for every operator name, native group (dotted ones included) and kind, and view types are recognized as such and no others are. Discovery and REST mapping for views agree with it, and the UID assigned to a view object depends only on its type, namespace and name and differs between different objects.",
 ["inputs"], "all valid operator names, kinds, native API groups (dotted included), namespaces and names",
 "Tests use two or three fixed names.",
 ["pkg/api/view/v1alpha1/group_version.go", "pkg/cache/view_discovery.go", "pkg/cache/view_restmapper.go", "pkg/cache/restmapper.go", "pkg/object/uid.go", "pkg/cache/discovery.go"],
 [("group naming", "pkg/api/view/v1alpha1/group_version.go"), ("discovery", "pkg/cache/view_discovery.go"), ("REST mapping", "pkg/cache/view_restmapper.go")],
 ["mapping functions, discovery documents, UIDs"])

prop("C16", "Predicates and selectors filter exactly the matching events",
 "A source predicate accepts an event exactly when the boolean combination of its basic predicates (generation, resource version, label or annotation changes) and of not/and/or does; a label selector accepts exactly the objects whose labels match under Kubernetes selector semantics, and a namespace filter exactly the objects in that namespace. Predicates keep their meaning when serialized, and a selector written as an expression agrees with a selector configured on a source.",
 ["inputs", "programs"], "all predicate trees, label selectors, label sets, namespaces and event kinds (create, update, delete, generic)",
 "Tests evaluate a few fixed predicates on fixed events.",
 ["pkg/predicate/predicate.go", "pkg/expression/selector.go", "pkg/reconciler/source.go", "pkg/api/operator/v1alpha1/controller_types.go"],
 [("predicate compilation", "pkg/predicate/predicate.go"), ("selector matching", "pkg/expression/selector.go")],
 ["verdicts of compiled predicates"])

prop("C17", "Running controllers converge to the declared result",
 "For any operator made of controllers connected through views and any history of changes to the source objects, possibly made concurrently and before or after start-up, once changes stop the target views become and stay equal to the result of evaluating the controllers' pipelines from scratch on the final sources, honouring the source's namespace and label filters. One-shot sources trigger exactly once, periodic sources restore required objects that were altered or removed, and patching targets leave exactly the users' content and the fields that are due.",
 ["histories", "schedules", "configurations"], "generated controller chains (1-3 controllers, joins, filters, view and native sources), generated change histories issued from several goroutines",
 "Tests wait for one expected object after one change.",
 ["pkg/controller/declarative.go", "pkg/reconciler/source.go", "pkg/reconciler/reconciler.go", "pkg/reconciler/target.go", "pkg/controller/reconcilers.go", "pkg/operator/operator.go"],
 [("watch sources and event handlers", "pkg/reconciler"), ("reconciler loop", "pkg/controller/reconcilers.go")],
 ["contents of target views"])

prop("C18", "Failures are retried and reported, and never lose later changes",
 "When writing to the target or evaluating a pipeline fails for a while, the controller reports an error, keeps working on other objects, and retries the failed writes until they succeed: once the fault is gone (or the object that could not be evaluated is corrected or deleted) the target becomes what evaluation from scratch gives, without further changes. The status of a controller lists at most the last ten errors, oldest dropped first, and its conditions are ready exactly when the controller could be set up and has no error to report.",
 ["fault_sequences", "histories"], "all histories of source changes and target write faults; all sequences of reported errors",
 "Tests inject a single error and look at a single status.",
 ["pkg/controller/reconcilers.go", "pkg/controller/status_reporter.go", "pkg/controller/declarative.go", "pkg/pipeline/zset_adaptor.go"],
 [("error reporter", "pkg/controller/status_reporter.go"), ("retry by the work queue", "pkg/controller/reconcilers.go")],
 ["controller status, error channel, target contents"])

prop("C19", "Issued tokens authenticate their user and nothing else does",
 "A token issued for a user with namespaces, rules and a lifetime authenticates with the matching key as exactly that user with exactly those namespaces and rules until it expires. A token that is expired, not yet valid, altered in any byte that matters, signed with another key or another algorithm, unsigned, or presented in a malformed header is rejected with an error, never a crash.",
 ["inputs"], "all users, namespace lists, rule lists, lifetimes; all byte alterations of tokens, keys and authorization headers",
 "Tests check one valid and a few invalid tokens.",
 ["pkg/auth/token.go", "pkg/auth/authenticator.go"],
 [("token issuing and validation", "pkg/auth/token.go")],
 ["authentication verdict and resulting user information"])

prop("C20", "Authorization grants exactly what the token's rules allow",
 "A request is allowed exactly when its namespace is in the token's namespace list (or the list is empty or has a wildcard) and, if the token has rules, at least one rule matches verb, API group, resource and, for requests on a named object, resource name, with wildcards honoured. Adding rules or namespaces to a non-empty list never revokes access, removing them never grants it while the list stays non-empty, and requests without a resource are independent of rules.",
 ["inputs", "configurations"], "all rule lists, namespace lists and request attributes",
 "Tests check about twenty fixed combinations.",
 ["pkg/auth/rbac.go", "pkg/auth/authorizer.go", "pkg/auth/token.go"],
 [("rule matching", "pkg/auth/rbac.go"), ("authorizer", "pkg/auth/authorizer.go")],
 ["authorizer decisions"])

prop("C21", "Credential files round-trip and keep private keys private",
 "A generated key pair and certificate written to files and read back is a working pair whose certificate covers the requested host names and addresses, and the private key file is readable by its owner only, also when the command line tool writes it. A generated client configuration carries the token, server address, default namespace and TLS settings it was generated from, extraction gives back the same token, and malformed key material or configurations are rejected with an error.",
 ["inputs", "configurations"], "all host names/addresses, file names, users, tokens, server addresses, namespaces, TLS options, malformed files",
 "Tests write one key pair and one configuration.",
 ["pkg/auth/authenticator.go", "pkg/auth/kubeconfig.go", "main.go"],
 [("key and certificate files", "pkg/auth/authenticator.go"), ("client configuration", "pkg/auth/kubeconfig.go"), ("command line", "main.go")],
 ["files written, parsed certificates and configurations"])

prop("C22", "The API server serves the view store faithfully",
 "Any sequence of REST creates, gets, lists, updates, patches, deletes and watches on registered views gives the responses and leaves the store contents of a keyed object store: reads return what was written, absent objects give not-found, creating stores the given object (replacing one of the same name), selectors and namespaces restrict lists and watches, and a watch reports every change after it started. Changes made through the API server are seen by the operators and vice versa.",
 ["histories", "inputs"], "all sequences of REST calls and direct store changes over several views, namespaces and names",
 "Tests issue one call of each type in a fixed order.",
 ["pkg/apiserver/storage.go", "pkg/apiserver/resource_handler.go", "pkg/apiserver/registry.go", "pkg/cache/view_client.go", "pkg/cache/client.go"],
 [("REST storage on top of the client", "pkg/apiserver/storage.go")],
 ["HTTP responses and store contents"])

prop("C23", "API discovery always matches the registered views",
 "After any sequence of registering and unregistering view types and groups, discovery lists exactly the registered groups and kinds, resource paths of registered views are served and those of unregistered or never registered ones are not, and registering again restores service. Native types are never registered, listed or served, registering a group again replaces its views, and registrations of one group never affect another.",
 ["histories", "configurations"], "all sequences of register/unregister calls over several groups and kinds, before and after start-up",
 "Tests register and unregister one group once.",
 ["pkg/apiserver/registry.go", "pkg/apiserver/dynamic_discovery.go", "pkg/apiserver/apiserver.go", "pkg/apiserver/openapi.go"],
 [("group registration", "pkg/apiserver/registry.go"), ("dynamic discovery", "pkg/apiserver/dynamic_discovery.go")],
 ["discovery documents, HTTP status of resource paths, registration results"])

prop("C24", "Only authenticated and authorized requests reach the API",
 "With authentication enabled, every request to the API server gets exactly the verdict that its token and the authorization rules call for: missing, invalid or expired tokens are refused as unauthorized, valid tokens without permission as forbidden, and permitted requests are served; a refused request has no effect on stored objects. This holds for every verb, path and namespace and for requests that span all namespaces.",
 ["inputs", "histories"], "all tokens (valid, expired, altered, foreign), rule and namespace lists, verbs and paths",
 "Tests send a few fixed requests.",
 ["pkg/apiserver/apiserver.go", "pkg/apiserver/builder.go", "pkg/auth/token.go", "pkg/auth/authorizer.go"],
 [("authentication and authorization chain", "pkg/apiserver/builder.go")],
 ["HTTP status codes and store contents"])

prop("C25", "Operators can be added, updated and removed in isolation",
 "Adding, updating and removing operators in any order makes exactly the controllers of the present operators, in their latest specification, active: a removed operator's controllers write nothing any more, an updated one works by its new specification, and other operators and their data are never affected. Invalid specifications are reported as errors and leave the rest working.",
 ["histories", "configurations"], "all sequences of operator add/update/remove with valid and invalid specifications and source changes in between",
 "Tests add and remove a single operator.",
 ["pkg/operator/operator.go", "pkg/kubernetes/controllers/operator.go", "pkg/controller/declarative.go", "pkg/manager/manager.go"],
 [("operator life cycle", "pkg/operator/operator.go"), ("operator reconciler", "pkg/kubernetes/controllers/operator.go")],
 ["target view contents, reported errors and statuses"])

prop("C26", "Operator diagrams show every controller and data flow",
 "The diagram generated for an operator contains every controller exactly once, labelled with its name and pipeline steps in order, and every source and target resource, and its connections are exactly the flows from a resource to the controllers that read it and from a controller to the resource it writes. The textual output in each format is syntactically well formed for every operator, whatever characters occur in names.",
 ["inputs", "configurations"], "all operator specifications (several producers or consumers of a view, external views, native groups, unusual names)",
 "Tests render one or two example operators.",
 ["pkg/visualize/visualize.go", "pkg/visualize/dot.go", "pkg/visualize/mermaid.go"],
 [("graph construction", "pkg/visualize/visualize.go"), ("generators", "pkg/visualize")],
 ["graph structure and rendered text"])

prop("C27", "Object conversions preserve content",
 "Secrets entering from native sources have every data value that is valid base64 decoded and everything else unchanged, converting objects to view objects keeps name, namespace and content and sets the view's type, deep copies are equal and independent, and equality of objects is structural. Names, namespaces and content that are set are what is read back.",
 ["inputs"], "all JSON objects, Secret data maps (valid and invalid base64, non-string values)",
 "Tests use fixed secrets and objects.",
 ["pkg/object/secret.go", "pkg/object/object.go", "pkg/object/utils.go", "pkg/cache/composite.go"],
 [("secret decoding", "pkg/object/secret.go"), ("object helpers", "pkg/object/object.go")],
 ["converted objects"])

out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p) + "\n")
print(len(P), "properties")
