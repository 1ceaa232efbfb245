"""Rounds of free running threads (harness mode "lin", module LinSys)."""
import json
import os
import re
import subprocess
import time
from concurrent.futures import ThreadPoolExecutor
from mxcore import BIN, CORES, ToolError, conv, prep_op, run_tlc, w
from gens import Gen, new, snap, send, process, UMAX

P0 = {"k": "proc", "n": ["P"], "limit": [], "show": False, "cap": [], "block": False, "tx": "tx", "items": []}


def rec(i, n=None):
    return {"k": "rec", "id": i, "n": n or i, "ret": 1}


def proc(name, tx, recs, cap=None, block=False, cockpit=None):
    items = [{"slot": "handler", "x": r, "b": False} for r in recs]
    if cockpit:
        items.append({"slot": "cockpit", "b": False, "x": {"k": "cockpit", "n": ["K"], "ti": [], "de": [], "limit": [], "show": False, "items": [{"slot": "handler", "x": cockpit, "b": False}]}})
    return dict(P0, n=[name], tx=tx, cap=[] if cap is None else [cap], block=block, items=items)


def one(l):
    return {"k": "1", "l": l, "ts": 0}


def qs(g, tx="tx"):
    return {"op": "qs", "tx": tx, "what": g.ch(["size", "full", "empty"])}


def log(*ids):
    return [{"op": "log", "id": i} for i in ids]


def th(ops, own=()):
    return {"own": list(own), "ops": ops}


def pump(m=None, st=None):
    return {"op": "pump", "id": "P", "max": UMAX if m is None else w(m), "st": st or {"k": "all"}}


def senders(g, n, k, tx="tx", extra=None, px=0.0):
    """threads that send; every observation has a label of its own"""
    out = []
    for t in range(n):
        ops = []
        for j in range(g.r.randint(1, k)):
            ops.append(send(tx, one(10 * t + j), g.ch(["transmit", "observed"])))
            if extra and g.p(px):
                ops.append(extra(t, j))
        out.append(th(ops))
    return out


def f01(g):
    """senders, registrations and the one who processes"""
    ids = ["r1"]
    setup = [new("P", proc("P", "tx", [rec("r1")]))]
    n = g.r.randint(2, 3)

    def reg(t, j):
        i = "x%d%d" % (t, j)
        ids.append(i)
        return {"op": "ctl", "tx": "tx", "c": {"k": "add_handler", "x": rec(i)}}
    ths = senders(g, n, 3, extra=reg, px=0.15)
    own = th([process("P", None, g.ch([1, 2, None])) for _ in range(g.r.randint(0, 3))] + ([{"op": "drop", "id": "P"}] if g.p(0.1) else []), ["P"])
    gone = any(o["op"] == "drop" for o in own["ops"])
    return {"setup": setup, "threads": ths + [own], "end": ([] if gone else [process("P"), snap("P"), {"op": "qs", "tx": "tx", "what": "size"}]) + log(*ids)}


def f02(g):
    """bounded queues: nobody waits"""
    cap = g.ch([0, 1, 1, 1, 2, 3])
    setup = [new("P", proc("P", "tx", [rec("r1")], cap))]
    # the queue is all but full
    for k in range(cap - 1):
        setup.append(send("tx", one(90 + k)))
    n = g.r.randint(2, 4)
    ths = senders(g, n, 2 if n > 2 else 3, extra=lambda t, j: qs(g), px=0.15)
    if g.p(0.5):
        ths.append(th([process("P", None, g.ch([0, 1, 1, 2, None])) for _ in range(g.r.randint(1, 3))] + ([{"op": "drop", "id": "P"}] if g.p(0.1) else []), ["P"]))
    gone = any(o["op"] == "drop" for t in ths for o in t["ops"])
    return {"setup": setup, "threads": ths, "end": ([] if gone else [{"op": "qs", "tx": "tx", "what": "size"}, process("P"), {"op": "qs", "tx": "tx", "what": "size"}]) + log("r1")}


def f02b(g):
    """bounded queues: senders wait for room, nothing is lost"""
    cap = g.r.randint(1, 3)
    setup = [new("P", proc("P", "tx", [rec("r1")], cap, True))]
    n = g.r.randint(2, 3)
    ths = senders(g, n, 3, extra=lambda t, j: qs(g), px=0.1)
    drop = g.p(0.2)
    own = [process("P", None, g.ch([0, 1, 2])) for _ in range(g.r.randint(0, 2))] + ([{"op": "drop", "id": "P"}] if drop else [pump(g.ch([1, 1, 2, None]))])
    return {"setup": setup, "threads": ths + [th(own, ["P"])], "end": ([] if drop else [process("P"), {"op": "qs", "tx": "tx", "what": "size"}]) + log("r1")}


def f03(g):
    x = f02(g) if g.p(0.5) else f01(g)
    st = g.ch([{"k": "all"}, {"k": "none"}])
    for t in x["threads"]:
        for o in t["ops"]:
            if o["op"] == "process":
                o["st"] = st
    return x


# ---- drivers --------------------------------------------------------------------
def drv(i="D1", h="h1", n=(), st=None):
    return {"op": "dnew", "id": i, "h": h, "x": {"n": list(n), "ti": [], "de": [], "st": st or {"k": "all"}, "m": False, "mx": "none", "auto": False, "via": "builder"}}


def put(what, target, child=None, **kw):
    o = {"op": "put", "what": what, "dyn": kw.pop("dyn", False), target[0]: target[1]}
    if child is not None:
        o["x" if what == "probe" else "child"] = child
    o.update(kw)
    return o


def probe(i):
    return {"k": "probe", "id": i, "n": "n" + i, "gp": False, "gs": False, "outs": []}


def handles(n):
    return [{"op": "dclone", "h": "h1", "to": "h%d" % k} for k in range(2, n + 1)]


def ask(h, d=False):
    return {"op": "dask", "h": h, "d": d}


def f17(g):
    """snapshots while observations are sent and components attached"""
    n = g.r.randint(1, 2)
    setup = [drv("D1", "h1", ["N"])] + handles(n + 1) + [put("probe", ("h", "h1"), probe("pr"))]
    setup += [new("P", proc("P", "tx", [rec("r1", "v1")], cockpit=rec("r2", "v2"))), new("Q", proc("Q", "ty", [rec("q1", "w1")]))]
    late = g.p(0.4)
    setup.append(put("obj", ("h", "h1"), "P"))
    if not late:
        setup.append(put("obj", ("h", "h1"), "Q"))
    ths = []
    for t in range(n):
        h = "h%d" % (t + 2)
        ops = []
        for j in range(g.r.randint(1, 3)):
            ops.append(g.ch([ask(h, g.p(0.3)), ask(h), {"op": "dreq", "h": h, "t": "t%d%d" % (t, j), "sync": False, "d": False}]))
        ths.append(th(ops, [h]))
    sx = [send(g.ch(["tx", "ty"]), one(10 + j)) for j in range(g.r.randint(1, 3))]
    if late:
        sx.insert(g.r.randint(0, len(sx)), put("obj", ("h", "h1"), "Q"))
        if g.p(0.5):
            sx.insert(g.r.randint(0, len(sx)), ask("h1"))
    ths.append(th(sx, ["h1", "Q"] if late else ["h1"]))
    return finish(g, {"setup": setup, "threads": ths, "end": [ask("h1")]}, n + 1, 1, ["r1", "r2", "q1"])


def finish(g, x, n, probes, logs, extra=()):
    """answers awaited, all handles gone, everything released"""
    asked = [o["t"] for t in x["threads"] for o in t["ops"] if o["op"] == "dreq"]
    dropped = {o["h"] for t in x["threads"] for o in t["ops"] if o["op"] == "ddrop"}
    hs = ["h%d" % k for k in range(1, n + 1) if "h%d" % k not in dropped]
    x["end"] += [{"op": "ddrop", "h": h} for h in hs]
    x["end"] += [{"op": "dend", "n": probes}] + [{"op": "dawait", "t": t} for t in asked] + log(*logs)
    return x


def f18(g):
    """handles go while others ask, attach, pause"""
    n = g.r.randint(2, 3)
    setup = [drv()] + handles(n) + [put("probe", ("h", "h1"), probe("pr"))]
    setup += [new("P", proc("P", "tx", [rec("r1", "v1")])), put("obj", ("h", "h1"), "P")]
    ths, extra = [], 0
    for t in range(n):
        h = "h%d" % (t + 1)
        ops = []
        for j in range(g.r.randint(0, 2)):
            k = g.ch(["dreq", "dask", "pause", "probe", "send", "resume"])
            if k == "dreq":
                ops.append({"op": "dreq", "h": h, "t": "t%d%d" % (t, j), "sync": False, "d": False})
            elif k == "dask":
                ops.append(ask(h))
            elif k == "probe":
                extra += 1
                ops.append(put("probe", ("h", h), probe("p%d%d" % (t, j))))
            elif k == "send":
                ops.append(send("tx", one(10 * t + j)))
            else:
                ops.append({"op": "d" + k, "h": h})
        if g.p(0.85):
            ops.append({"op": "ddrop", "h": h})
        ths.append(th(ops, [h]))
    return finish(g, {"setup": setup, "threads": ths, "end": []}, n, 1 + extra, ["r1"])


def f16(g):
    """pause, resume and changes of the strategy by several threads"""
    n = 2
    setup = [drv()] + handles(n + 1) + [put("probe", ("h", "h1"), probe("pr")), new("P", proc("P", "tx", [rec("r1", "v1")])), put("obj", ("h", "h1"), "P")]
    ths = []
    for t in range(n):
        h = "h%d" % (t + 1)
        ops = []
        for j in range(g.r.randint(1, 3)):
            k = g.ch(["pause", "resume", "send", "send", "ask", "strat"])
            ops.append({"op": "d" + k, "h": h} if k in ("pause", "resume") else send("tx", one(10 * t + j)) if k == "send" else ask(h) if k == "ask"
                       else {"op": "dstrat", "h": h, "st": g.ch([{"k": "none"}, {"k": "all"}])})
        ths.append(th(ops, [h]))
    return finish(g, {"setup": setup, "threads": ths, "end": [{"op": "dresume", "h": "h1"}, ask("h1"), ask("h1")]}, n + 1, 1, ["r1"])


def f19(g):
    """attached mounts used by several threads"""
    setup = [drv("D1", "h1", ["N"])] + handles(2) + [put("probe", ("h", "h1"), probe("pr"))]
    setup += [new("M", {"k": "mount", "n": ["M"], "limit": [], "items": []}), put("amount", ("h", "h1"), "M", to="a1"), {"op": "aclone", "a": "a1", "to": "a2"}]
    setup += [new("P", proc("P", "tx", [rec("r1", "v1")])), new("Q", proc("Q", "ty", [rec("q1", "w1")]))]
    a = [send("tx", one(1)), put("obj", ("a", "a1"), "P", dyn=g.p(0.5)), send("tx", one(2))]
    b = [put("obj", ("a", "a2"), "Q", dyn=g.p(0.5)), send("ty", one(11)), send("tx", one(12))]
    for x in (a, b):
        for _ in range(g.r.randint(0, 1)):
            x.pop(g.ch([0, 2]) if len(x) > 2 and x[1].get("what") else len(x) - 1)
    ths = [th(a, ["P"]), th(b, ["Q"])]
    c = [ask("h2") for _ in range(g.r.randint(1, 2))] + ([{"op": "ddrop", "h": "h2"}] if g.p(0.3) else [])
    ths.append(th(c, ["h2"]))
    return finish(g, {"setup": setup, "threads": ths, "end": [ask("h1")]}, 2, 1, ["r1", "q1"])


MOST = {"C17": 150, "C19": 100}
ROUNDS = {"C01": [f01], "C02": [f02, f02b], "C03": [f03], "C16": [f16], "C17": [f17], "C18": [f18], "C19": [f19]}


# ---- running --------------------------------------------------------------------
def event(e):
    x = {k: v for k, v in e.items() if k in ("e", "t")}
    if "op" in e:
        x["op"] = conv(prep_op(e["op"]))
    if "res" in e:
        x["res"] = conv(e["res"])
    return x


def guide(h):
    """what the end of a history tells about what went before"""
    g = {"logs": [], "ans": []}
    ops = [e["op"] for e in h if "op" in e]
    for e in h:
        if e["e"] == "seq" and e["op"]["op"] == "dawait" and "s" in e["res"]:
            g["ans"].append({"t": e["op"]["t"], "res": conv(e["res"])})
    if h[-1]["e"] == "stuck" or any((o.get("st") or (o.get("x") or {}).get("st") or {"k": "all"})["k"] != "all" for o in ops):
        return g
    procs = [o["x"] for o in ops if o["op"] == "new" and o["x"]["k"] == "proc"]
    for p in procs:
        r = p["items"][0]["x"]["id"]
        last = [e["res"]["log"] for e in h if e["e"] == "seq" and e["op"]["op"] == "log" and e["op"]["id"] == r and "log" in e["res"]][-1:]
        if not last:
            continue
        end = [k for k, e in enumerate(h) if e["e"] == "seq" and e["op"]["op"] == "process"]
        whole = bool(end) and not any(o["op"] in ("drop", "dnew") for o in ops) and not any(e.get("op", {}).get("op") in ("send", "ctl") for e in h[end[-1]:])
        g["logs"].append({"tx": p["tx"], "rec": r, "order": [o["l"] for o in last[0]], "whole": whole})
    return g


def check(path, hs, work, until):
    """what LinSys does not explain; histories it has no time for are counted, not judged"""
    left = until - time.time()
    if left < 5:
        return [], len(hs)
    with open(path, "w") as f:
        for h in hs:
            f.write(json.dumps({"h": [event(e) for e in h["h"]], "g": guide(h["h"])}, ensure_ascii=False) + "\n")
    try:
        rc, txt = run_tlc("LinSys", "LinSys.cfg", work, env={"TRACE": path}, timeout=left)
    except ToolError:
        return [], len(hs)
    m = re.search(r'<<"CHECKED", (\d+), (\d+)>>', txt)
    if not m or int(m.group(1)) != len(hs):
        with open(os.path.join(work, "tlc-error.txt"), "w") as f:
            f.write(txt)
        raise ToolError("TLC did not finish %s (see tlc-error.txt):\n%s" % (path, txt[-3000:]))
    bad = []
    for mm in re.finditer(r'<<\s*"UNEXPLAINED",\s*(\d+),\s*(\d+),\s*(".*?")\s*>>', txt, re.S):
        h = hs[int(mm.group(1)) - 1]
        n = int(mm.group(2))
        try:
            exp = json.loads(json.loads(mm.group(3).replace("\n", "")))
        except ValueError:
            exp = mm.group(3)
        bad.append({"what": "a history the specification does not explain", "round": h["round"], "history": h["h"][:n], "expected": exp, "actual": h["h"][n - 1].get("res", h["h"][n - 1])})
    return bad, 0


def run(prop, tier, seed, work, seconds=None, programs=None, most=None, defs=None, until=None):
    g = Gen("free/%s/%s" % (prop, seed))
    fs = ROUNDS[prop]
    n = programs or (60 if tier == "quick" else 600)
    seconds = seconds or (8 if tier == "quick" else 90)
    most = most or (MOST.get(prop, 600) * (1 if tier == "quick" else 15))
    defs = defs or [fs[k % len(fs)](g) for k in range(n)]
    t0 = time.time()
    src, out = os.path.join(work, "free.in"), os.path.join(work, "free.out")
    with open(src, "w") as f:
        for d in defs:
            f.write(json.dumps(d, ensure_ascii=False) + "\n")
    r = subprocess.run([BIN, "lin", src, out, str(int(seconds * 1000))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=seconds + 120)
    m = re.search(r"ROUNDS (\d+) DIFFERENT (\d+)", r.stderr)
    if r.returncode < 0:
        return {"coverage": {}, "traces": 0, "ops": 0, "violation": {"what": "process ended by signal %d" % -r.returncode, "session": [], "module": "LinSys", "expected": "the process goes on", "actual": r.stderr[-500:], "rounds": defs}}
    if r.returncode != 0 or not m:
        raise ToolError("harness failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    t1 = time.time()
    hs = [json.loads(l) for l in open(out) if l.strip()]
    stuck = [h for h in hs if any(e["e"] == "stuck" or (e.get("res") or {}).get("stuck") for e in h["h"])]
    if len(hs) > most:
        # of every round some
        g.r.shuffle(hs)
        by = {}
        for h in hs:
            by.setdefault(h["round"], []).append(h)
        hs = list(stuck)
        while len(hs) < most and by:
            for k in list(by):
                hs.append(by[k].pop())
                if not by[k]:
                    del by[k]
    until = until or time.time() + 400
    # (small files first: a history that takes long does not hold up many others)
    size = max(1, min(40, len(hs) // (2 * CORES)))
    chunks = [hs[k:k + size] for k in range(0, len(hs), size)]
    with ThreadPoolExecutor(max_workers=CORES) as ex:
        rs = list(ex.map(lambda kc: check(os.path.join(work, "free-%d" % kc[0]), kc[1], work, until), enumerate(chunks)))
    bad = [b for r in rs for b in r[0]]
    undecided = sum(r[1] for r in rs)
    ops = sum(1 for h in hs for e in h["h"] if e["e"] != "inv")
    v = None
    if bad:
        b = min(bad, key=lambda b: len(b["history"]))
        v = dict(b, session=[e["op"] for e in b["history"] if "op" in e], module="LinSys", rounds=[defs[b["round"]]])
    cov = {"programs": len(defs), "rounds_run": int(m.group(1)), "different_histories": int(m.group(2)), "histories_checked": len(hs) - undecided, "not_decided_in_time": undecided, "operations": ops, "checked_by": "spec/LinSys.tla", "run_s": round(t1 - t0, 1), "check_s": round(time.time() - t1, 1)}
    return {"coverage": cov, "traces": len(hs) - undecided, "ops": ops, "violation": v}
