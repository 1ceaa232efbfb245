#!/usr/bin/env python3
"""check.py Cxx quick|thorough   decides one property, writes evidence/Cxx.json
check.py replay FILE          runs the session of a replay file again
check.py setup                builds everything"""
import copy, json, os, sys, time, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mxcore import *
import gens, gensys, worlds, free

SEED = int(os.environ.get("VERIF_SEED", "1"))
ASSUME = [
    "the clock of the process is replaced by one that stands still between operations (or is moved on purpose); real time passes nowhere",
    "threads of the library run one gate at a time; what happens between two gates is interleaved by the operating system as it likes",
    "TLC, the trace conversion of tools/mxcore.py and the harness are trusted",
]
# sessions of random traces (one thread, several threads), leaves of the model replayed
SIZES = {"quick": dict(seq=500, sys=250, leaves=2500, budget=420), "thorough": dict(seq=12000, sys=4000, leaves=60000, budget=780)}
if os.environ.get("MX_SMALL"):
    SIZES["quick"] = dict(seq=60, sys=40, leaves=200, budget=420)


def batches(make, total, size):
    k = 0
    while k < total:
        n = min(size, total - k)
        yield make(k, n)
        k += n


def confirm(viol, module, work):
    """does the session fail again, alone?"""
    if not viol["session"]:
        return True
    for k in range(4):
        v = check_file(os.path.join(work, "confirm"), [viol["session"]], work, module)
        if v.violations:
            viol.update({k: v.violations[0][k] for k in ("what", "expected", "actual")})
            return True
    return False


def run(prop, tier):
    t0 = time.time()
    size = SIZES[tier]
    deadline = t0 + size["budget"]
    work = tempfile.mkdtemp(prefix="w-%s-" % prop, dir=ensure(os.path.join(VERIF, "work")))
    ev = {"property": prop, "tier": tier, "seed": SEED, "level": "model_checking"}
    cov = {"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []}
    found, notes = [], []
    kinds = {}
    parts = {}
    ops = 0
    try:
        build()
        tb = time.time()

        def conform(name, sessions, module):
            nonlocal ops
            if not sessions or found:
                return
            t = time.time()
            sessions = [gens.varied(gens.Gen("vary/%s/%s/%d/%d" % (prop, name, SEED, j)), copy.deepcopy(s) if name.startswith("model") else s) for j, s in enumerate(sessions)]
            v = run_sessions(sessions, work, name, module)
            ops += v.ops
            cov["traces_validated_against_impl"] += v.sessions
            p = parts.setdefault(name, {"traces": 0, "operations": 0, "checked_by": "spec/%s.tla" % module, "wall_s": 0})
            p["traces"] += v.sessions
            p["operations"] += v.ops
            p["wall_s"] = round(p["wall_s"] + time.time() - t, 1)
            for k, n in v.opkinds.items():
                kinds[k] = kinds.get(k, 0) + n
            for x in v.violations:
                x["module"], x["part"] = module, name
                if confirm(x, module, work):
                    found.append(x)
                    break
                notes.append("a difference in part %s did not occur again and is not counted" % name)

        # 1. the model: every behaviour of small worlds has the property
        leaves = []
        ws = worlds.WORLDS.get(prop, lambda tier: [])(tier)
        if ws:
            m = run_model(ws, work, tier, max(60, deadline - time.time() - 60))
            cov["states"], cov["transitions"] = m["states"], m["transitions"]
            cov["model"] = {"worlds": len(ws), "invariants": sorted({i for x in ws for i in x["invs"]}), "depth": m["depth"], "leaves": len(m["leaves"]), "wall_s": m["wall_s"], "behaviours_complete": True}
            if m["violation"]:
                raise ToolError("the model itself breaks its invariant:\n" + m["violation"])
            leaves = m["leaves"]
        live = worlds.LIVE.get(prop)
        if live:
            m = run_live(live[0], live[1](tier), work)
            cov["states"] += m["states"]
            cov["transitions"] += m["transitions"]
            cov["liveness"] = {"properties": m["props"], "states": m["states"], "wall_s": m["wall_s"]}
        # 2. behaviours of the model, executed by the library
        r = gens.Gen("leaves/%s/%d" % (prop, SEED)).r
        if len(leaves) > size["leaves"]:
            leaves = r.sample(leaves, size["leaves"])
        if leaves:
            for bs in batches(lambda k, n: leaves[k:k + n], len(leaves), 8000):
                if time.time() > deadline - 60 or found:
                    break
                for mod in ("TraceMetrix", "TraceSys"):
                    conform("model" + ("" if mod == "TraceMetrix" else "_threads"), [worlds.session(ws[w], js) for w, js in bs if ws[w]["module"] == mod], mod)
        # 3. long random traces of the library, checked by the specification
        for n in batches(lambda k, n: (k, n), size["sys"], 800):
            if time.time() < deadline - 40 and prop in gensys.SYS:
                conform("threads", gensys.sys_sessions(prop, n[1], "%d.%d" % (SEED, n[0]) if n[0] else SEED), "TraceSys")
        conform("sweep", gens.sweeps(prop, SEED), "TraceMetrix")
        for n in batches(lambda k, n: (k, n), size["seq"], 2000):
            if time.time() < deadline - 30 and prop in gens.PROFILES:
                conform("single", gens.sessions(prop, n[1], "%d.%d" % (SEED, n[0]) if n[0] else SEED), "TraceMetrix")
        # 4. free running threads
        if prop in free.ROUNDS and not found:
            e = free.run(prop, tier, SEED, work, until=max(deadline, time.time() + 100))
            cov["free_running"] = e["coverage"]
            cov["traces_validated_against_impl"] += e["traces"]
            ops += e["ops"]
            if e["violation"]:
                found.append(dict(e["violation"], part="free"))
        cov["operations_executed"] = ops
        cov["operation_kinds"] = kinds
        cov["parts"] = parts
        cov["build_s"] = round(tb - t0, 1)
        for s in (([worlds.session(ws[w], js) for w, js in leaves[:1]]) if leaves else []) + (gensys.sys_sessions(prop, 1, SEED) if prop in gensys.SYS else []) + (gens.sessions(prop, 1, SEED) if prop in gens.PROFILES else []):
            cov["samples"].append(s[:14])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    if notes:
        cov["notes"] = notes
    ev.update(coverage=cov, assumptions=ASSUME, wall_s=round(time.time() - t0, 1), violations=len(found))
    ensure(os.path.join(VERIF, "evidence"))
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, ensure_ascii=False)
    for n in notes:
        print("note:", n)
    print("%s %s: %d states, %d traces, %d operations, %.1f s" % (prop, tier, cov["states"], cov["traces_validated_against_impl"], ops, time.time() - t0))
    if found:
        ensure(os.path.join(VERIF, "replays"))
        x = found[0]
        path = os.path.join(VERIF, "replays", "%s-%d.json" % (prop, SEED))
        with open(path, "w") as f:
            json.dump(dict(x, property=prop), f, indent=1, ensure_ascii=False)
        print("%s in part %s after %d operations" % (x["what"], x["part"], len(x["session"])))
        print("  operation: " + json.dumps(x["session"][-1], ensure_ascii=False)[:400] if x["session"] else "")
        print("  expected:  " + json.dumps(x["expected"], ensure_ascii=False)[:800])
        print("  observed:  " + json.dumps(x["actual"], ensure_ascii=False)[:800])
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return 0


def ensure(d):
    os.makedirs(d, exist_ok=True)
    return d


def replay(path):
    x = json.load(open(path))
    build()
    work = tempfile.mkdtemp(prefix="w-replay-", dir=ensure(os.path.join(VERIF, "work")))
    try:
        if "rounds" in x:
            # threads that run freely: the same rounds again and again
            e = free.run(x["property"], "quick", 1, work, seconds=30, defs=x["rounds"])
            print("violation again:" if e["violation"] else "not seen again (this time)", json.dumps(e["violation"], ensure_ascii=False)[:3000])
            print("as recorded:", json.dumps({k: x[k] for k in ("history", "expected", "actual") if k in x}, ensure_ascii=False)[:6000])
            if e["violation"]:
                print("VIOLATION property=%s replay=%s" % (x["property"], path))
            return 1 if e["violation"] else 0
        v = check_file(os.path.join(work, "r"), [x["session"]], work, x["module"])
    finally:
        shutil.rmtree(work, ignore_errors=True)
    for o in x["session"]:
        print(json.dumps(o, ensure_ascii=False)[:300])
    if v.violations:
        print("expected", json.dumps(v.violations[0]["expected"])[:3000])
        print("observed", json.dumps(v.violations[0]["actual"])[:3000])
        print("VIOLATION property=%s replay=%s" % (x["property"], path))
        return 1
    print("the session agrees with the specification")
    return 0


if __name__ == "__main__":
    try:
        if sys.argv[1] == "setup":
            build()
            sys.exit(0)
        if sys.argv[1] == "replay":
            sys.exit(replay(sys.argv[2]))
        sys.exit(run(sys.argv[1], os.environ.get("VERIF_TIER") if len(sys.argv) < 3 else sys.argv[2]))
    except ToolError as e:
        print("check could not be carried out:", e)
        sys.exit(2)
