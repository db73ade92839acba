#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the checks present in harness/"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = {
 "C01": ("stateful property-based testing against a reference evaluator", "random pipelines x event histories; target compared with a from-scratch reference after every event"),
 "C02": ("stateful property-based testing, invariants on emitted deltas", "random pipelines x histories with no-op, rejected and unknown events"),
 "C03": ("stateful property-based testing with injected target drift against a reference evaluator", "random histories of events, drift and resynchronizations"),
 "C04": ("differential and model-based property testing of operator graphs", "all execution modes of random operator graphs compared with a multiset model"),
 "C05": ("model-based and metamorphic property testing of the Z-set algebra", "random operation sequences against a map model through every observer"),
 "C06": ("metamorphic property testing: disturbed versus undisturbed twin pipelines", "event and result objects overwritten after each call"),
 "C07": ("grammar-based generation against an independent interpreter of the expression language", "typed and untyped random expressions on random documents"),
 "C08": ("round-trip property testing and structured plus byte-level fuzzing", "serialization round trips, arbitrary bytes and JSON"),
 "C09": ("model-based property testing of path access", "get/set laws and projection merges against a path model"),
 "C10": ("model-based property testing of patches with alias detection", "patch algebra against a reference patch; results overwritten to detect sharing"),
 "C11": ("model-based property testing of target writers over a fake API client", "write histories against a map model"),
 "C12": ("stateful model-based testing of the view store", "operation sequences against a keyed map"),
 "C13": ("stateful model-based testing of watches, with concurrent schedules", "event streams replayed and compared with the store"),
 "C14": ("stateful model-based testing of shared stores", "several operators attached to one store, detached in random order"),
 "C15": ("round-trip and injectivity property testing of identities", "random operators, groups and kinds"),
 "C16": ("property-based testing of predicates against reference semantics", "random predicate trees x events; serialization round trips"),
 "C17": ("end-to-end stateful testing of running operators against a reference evaluator", "random operators and concurrent histories; convergence to the reference"),
 "C18": ("fault injection in running controllers with a reference evaluator", "random transient faults in target writes and evaluation"),
 "C19": ("property-based testing and mutation fuzzing of tokens", "round trips and forged tokens"),
 "C20": ("property-based testing of authorization against a reference decision procedure", "random rules x requests, metamorphic monotonicity"),
 "C21": ("round-trip property testing of credential files, fuzzed malformed input", "key/certificate/kubeconfig generation and parsing"),
 "C22": ("stateful model-based testing of the HTTP API", "REST operation sequences against a keyed map"),
 "C23": ("stateful model-based testing of API registration", "registration histories against discovery and served paths"),
 "C24": ("property-based testing of authenticated requests against a reference verdict", "random tokens x requests over HTTP"),
 "C25": ("stateful model-based testing of operator life cycles", "random sequences of operator add/update/remove in a running controller"),
 "C26": ("property-based testing of diagrams with format parsers", "random operators; graph and text compared with the specification"),
 "C27": ("property-based testing of object conversions", "random objects; round trips and alias detection"),
}
WHY = {}
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    d = os.path.join(V, "harness", i.lower())
    if os.path.isdir(d) and any(f.endswith("_test.go") for f in os.listdir(d)):
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": f"python3 run.py {i}", "thorough_cmd": f"VERIF_TIER=thorough python3 run.py {i}",
                       "technique": t, "level": "exploration", "level_note": n + "; bounded by the generators, counts in the evidence file"})
    else:
        na.append({"property": i, "reason": WHY.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash setup.sh", "checks": checks, "not_applicable": na,
     "notes": "every check builds harness/<id> (a Go module with /repo as a replaced dependency) from /repo's working tree; no hooks are needed"}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not claimed")
