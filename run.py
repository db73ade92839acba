#!/usr/bin/env python3
"""run.py <ID>: builds and runs the check of one property against /repo's working tree.

exit 0: held on everything explored; exit 1 with a VIOLATION line: broken;
anything else: the check could not decide (build failure, time-out, lack of memory, ...)."""
import json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
ENV = "/opt/vp/env.sh"
SHARDS = {}   # number of parallel processes, 4 by default
PKG_RE = re.compile(r"github\.com/l7mp/dcontroller/")

def go_env():
    out = subprocess.run(["bash", "-c", f". {ENV} && env -0"], stdout=subprocess.PIPE, check=True).stdout
    env = {}
    for kv in out.split(b"\0"):
        if b"=" in kv:
            k, v = kv.split(b"=", 1)
            env[k.decode()] = v.decode(errors="replace")
    return env

def main():
    pid = sys.argv[1]
    replay = sys.argv[2] if len(sys.argv) > 2 else None
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = os.environ.get("VERIF_SEED", "1")
    try: seed_i = int(seed)
    except ValueError: seed_i = 1
    rep = None
    if replay:
        rep = json.load(open(replay)); tier = rep.get("tier", tier); seed_i = rep.get("seed", seed_i)
    limit = 840 if tier == "quick" else 3 * 3600
    start = time.time()
    env = go_env()
    env.update({"VERIF_TIER": tier, "VERIF_SEED": str(seed_i), "VERIF_KNOWN": os.path.join(VERIF, "known_findings.txt")})
    for k in ("VERIF_SCALE",):
        if k in os.environ: env[k] = os.environ[k]
    scratch = tempfile.mkdtemp(prefix=f"verif-{pid}-")
    try:
        rc = run(pid, rep, tier, seed_i, limit, start, env, scratch)
    finally:
        # servers started by the tests are not in our process groups: all have the scratch folder on the command line
        subprocess.run(["pkill", "-9", "-f", scratch], check=False)
        shutil.rmtree(scratch, ignore_errors=True)
    sys.exit(rc)

def kill(p):
    try: os.killpg(p.pid, signal.SIGKILL)
    except ProcessLookupError: pass

def run(pid, rep, tier, seed, limit, start, env, scratch):
    pkg = pid.lower()
    binary = os.path.join(scratch, "check.test")
    b = subprocess.run(["go", "test", "-c", "-vet=off", "-o", binary, f"./{pkg}"], cwd=os.path.join(VERIF, "harness"),
                       env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if b.returncode != 0 or not os.path.exists(binary):
        print(b.stdout); print(f"{pid}: cannot build the check"); return 2
    out, cwd, tmp = (os.path.join(scratch, d) for d in ("out", "cwd", "tmp"))
    for d in (out, cwd, tmp): os.mkdir(d)
    env.update({"VERIF_OUT": out, "TMPDIR": tmp, "VERIF_REPO": "/repo", "VERIF_DIR": VERIF})
    left = max(30, int(limit - (time.time() - start)))
    shards = 1 if rep else SHARDS.get(pid, 4)
    procs, logs = [], []
    for i in range(shards):
        o, cw = os.path.join(out, str(i)), os.path.join(cwd, str(i))
        os.mkdir(o); os.mkdir(cw)
        e = dict(env); sd = seed + i * 1000003
        e.update({"VERIF_OUT": o, "VERIF_SEED": str(sd), "VERIF_SHARD": str(i), "VERIF_SHARDS": str(rep.get("shards", 1) if rep else shards)})
        cmd = [binary, "-test.v", f"-test.timeout={left}s", f"-rapid.seed={sd or 7700777}"]
        if rep:
            cmd += ["-test.run", "^" + rep["test"].split("/")[0] + "$"]
            e["VERIF_REPLAY"] = "1"
            if rep.get("failfile"):
                ff = os.path.join(scratch, "replay.fail"); open(ff, "w").write(rep["failfile"])
                cmd += [f"-rapid.failfile={ff}"]
        lf = open(os.path.join(scratch, f"log{i}"), "w"); logs.append(lf.name)
        procs.append(subprocess.Popen(cmd, cwd=cw, env=e, stdout=lf, stderr=subprocess.STDOUT, start_new_session=True))
        lf.close()
    rcs = [None] * shards
    deadline = time.time() + left + 20
    while None in rcs and time.time() < deadline:
        for i, p in enumerate(procs):
            if rcs[i] is None: rcs[i] = p.poll()
        if any(r not in (None, 0) for r in rcs): break      # one failure decides
        time.sleep(0.05)
    for p in procs: kill(p)
    bad = next((i for i, r in enumerate(rcs) if r not in (None, 0)), None)
    timed_out = bad is None and None in rcs
    if bad is None: bad = rcs.index(None) if timed_out else 0
    rc, cwd, seed_bad = rcs[bad], os.path.join(cwd, str(bad)), seed + bad * 1000003
    log = open(logs[bad], errors="replace").read()
    stats = merge(out, shards)
    failed = [s for s in stats if s.get("failed")]
    wall = time.time() - start
    evidence(pid, tier, seed, stats, wall, len(failed), env)
    for s in stats:
        for k in s.get("known") or []:
            print(f"KNOWN-FINDING: property={pid} {k}")
    if rc == 0 and stats and not failed:
        n = sum(s["evaluations"] for s in stats); d = sum(s["distinct_nontrivial"] for s in stats)
        print(f"{pid}: held on {n} cases ({d} distinct non-trivial), seed {seed}, {wall:.1f} s")
        return 0
    crash = re.search(r"^(panic: .*|fatal error: .*|SIGSEGV.*)$", log, re.M)
    if not failed and rc not in (0, None) and crash and "test timed out" not in crash.group(1) \
            and "out of memory" not in crash.group(1) and "cannot allocate" not in crash.group(1):
        # the process died: a violation if the code under test is on the crashing goroutine's stack
        tail = log[crash.start():]
        first = tail.split("\n\ngoroutine ", 2)
        head = first[0] + (("\n\ngoroutine " + first[1]) if len(first) > 1 else "")
        if PKG_RE.search(head) or "concurrent map" in crash.group(1):
            running = re.findall(r"^=== RUN\s+(\S+)", log, re.M)
            failed = [{"test": running[-1] if running else "?", "failure": "process crashed: " + head[:6000]}]
    if failed and not (rc is None):
        s = failed[0]
        path = write_replay(pid, tier, seed_bad, s, log, cwd, shards)
        print(s.get("failure", "")[:6000])
        print(f"VIOLATION property={pid} replay={path}")
        return 1
    print(log[-6000:])
    print(f"{pid}: the check did not come to a decision (exit {rc})")
    return 3

def merge(out, shards):
    """the statistics of all shards, merged by test"""
    by, hs = {}, {}
    for i in range(shards):
        d = os.path.join(out, str(i))
        for f in sorted(os.listdir(d)):
            if not f.endswith(".json"): continue
            s = json.load(open(os.path.join(d, f)))
            h = s.pop("hashes", None) or []
            t = by.get(s["test"])
            if t is None:
                by[s["test"]] = s; hs[s["test"]] = set(h); continue
            t["evaluations"] += s["evaluations"]; t["wall_s"] = max(t["wall_s"], s["wall_s"])
            t["excluded_known"] = t.get("excluded_known", 0) + s.get("excluded_known", 0)
            for k, v in (s.get("classes") or {}).items():
                t.setdefault("classes", {}); t["classes"][k] = t["classes"].get(k, 0) + v
            hs[s["test"]] |= set(h)
            if s["failed"] and not t["failed"]: t["failed"] = True; t["failure"] = s.get("failure")
            t["known"] = (t.get("known") or []) + (s.get("known") or [])
    if shards > 1:
        for k, t in by.items():
            if hs[k]: t["distinct_nontrivial"] = len(hs[k])
    return list(by.values())

def write_replay(pid, tier, seed, s, log, cwd, shards):
    d = os.path.join(VERIF, "replays"); os.makedirs(d, exist_ok=True)
    name = s["test"].split("/")[0]
    ff = None
    fd = os.path.join(cwd, "testdata", "rapid")
    for root, _, files in os.walk(fd):
        for f in files:
            if f.endswith(".fail") and os.path.basename(root).startswith(name):
                ff = open(os.path.join(root, f)).read()
    m = re.search(r"^(\s*--- FAIL: %s.*?)(?=^=== RUN|^--- |\Z)" % re.escape(name), log, re.M | re.S)
    path = os.path.join(d, f"{pid}-{seed}.json")
    json.dump({"property": pid, "tier": tier, "seed": seed, "shards": shards, "test": s["test"], "failure": s.get("failure"),
               "output": (m.group(1) if m else log[-8000:])[:20000], "failfile": ff,
               "how": f"python3 /verif/run.py {pid} {path}"}, open(path, "w"), indent=1)
    return path

def evidence(pid, tier, seed, stats, wall, violations, env):
    cov = {"evaluations": sum(s["evaluations"] for s in stats),
           "distinct_nontrivial": sum(s["distinct_nontrivial"] for s in stats),
           "rule": " || ".join(f"{s['test']}: {s['rule']}" for s in stats if not s["rule"].startswith(("probe", "regression"))),
           "samples": [{"test": s["test"], "case": x["case"]} for s in stats for x in (s.get("samples") or [])][:24],
           "tests": {s["test"]: {k: s.get(k) for k in ("evaluations", "distinct_nontrivial", "excluded_known", "classes", "wall_s") if s.get(k)} for s in stats}}
    known = [k for s in stats for k in (s.get("known") or [])]
    if known: cov["known_findings_seen"] = known
    e = {"property": pid, "tier": tier, "seed": seed, "level": "exploration", "coverage": cov,
         "assumptions": ["the generators of the harness reach the inputs that matter; the reference models in harness/ref are right"],
         "wall_s": round(wall, 2), "violations": violations}
    d = os.path.join(VERIF, "evidence"); os.makedirs(d, exist_ok=True)
    json.dump(e, open(os.path.join(d, f"{pid}.json"), "w"), indent=1)

if __name__ == "__main__":
    main()
