"""Plumbing: build the harness, run operation sequences on the real library,
turn the records into traces for TLC, run TLC, collect the verdicts."""
import json, os, re, shutil, struct, subprocess, sys, time, hashlib
from concurrent.futures import ThreadPoolExecutor
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
HARNESS = os.path.join(VERIF, "harness")
SPEC = os.path.join(VERIF, "spec")
BIN = os.path.join(HARNESS, "target", "debug", "mxh")
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
CORES = int(os.environ.get("MX_CORES", "8"))


class ToolError(Exception):
    pass


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    env.setdefault("RUSTUP_TOOLCHAIN", "stable-x86_64-unknown-linux-gnu")
    r = subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("harness build failed:\n" + r.stdout[-4000:])


# ---- numbers ---------------------------------------------------------------
def wide(n):
    s = (n > 0) - (n < 0)
    n = abs(n)
    d = []
    while n:
        d.append(n % 10000)
        n //= 10000
    return {"s": s, "d": d}


def w(n):
    return {"w": str(n)}


def fb(f):
    return {"fb": "%016x" % struct.unpack("<Q", struct.pack("<d", f))[0]}


def float_rec(bits):
    f = struct.unpack("<d", struct.pack("<Q", int(bits, 16)))[0]
    if f != f:
        return {"nf": "nan", "neg": False, "int": wide(0), "up": False, "sc": wide(0), "b": "nan", "zero": False}
    if f in (float("inf"), float("-inf")):
        return {"nf": "inf" if f > 0 else "-inf", "neg": f < 0, "int": wide(0), "up": False, "sc": wide(0), "b": bits, "zero": False}
    q = Fraction(f)
    a = abs(q)
    i = a.numerator // a.denominator
    sc = (a * 10**16)
    sc = sc.numerator // sc.denominator
    return {"nf": "no", "neg": f < 0, "int": wide(i), "up": (a - i) >= Fraction(1, 2), "sc": wide(-sc if f < 0 else sc), "b": bits, "zero": f == 0}


def conv(v):
    """library record -> values of the specification"""
    if isinstance(v, dict):
        if len(v) == 1:
            if "w" in v:
                return wide(int(v["w"]))
            if "fb" in v:
                return float_rec(v["fb"])
        return {k: conv(x) for k, x in v.items()}
    if isinstance(v, list):
        return [conv(x) for x in v]
    return v


def json_tree(text):
    class Num:
        def __init__(self, t, f):
            self.t = t

    def pairs(ps):
        return ("obj", ps)

    def num(t):
        return ("num", t)

    try:
        v = json.loads(text, object_pairs_hook=pairs, parse_int=num, parse_float=num, parse_constant=lambda c: ("bad", c))
    except ValueError as e:
        return {"t": "bad", "x": str(e)}

    def go(v):
        if isinstance(v, tuple):
            k, x = v
            if k == "obj":
                return {"t": "g", "x": [{"n": n, "v": go(y)} for n, y in x]}
            if k == "num":
                q = Fraction(x)
                f = float(x)
                return {"t": "num", "w": [wide(int(q))] if q.denominator == 1 and abs(q) < 2**70 else [], "f": float_rec("%016x" % struct.unpack("<Q", struct.pack("<d", f))[0])}
            return {"t": "bad", "x": x}
        if v is None:
            return {"t": "null", "x": 0}
        if isinstance(v, bool):
            return {"t": "b", "x": v}
        if isinstance(v, str):
            return {"t": "s", "x": v}
        return {"t": "bad", "x": "array"}

    return go(v)


def prep_def(x):
    """fields of definitions that the specification wants in another form"""
    if isinstance(x, dict):
        y = {k: prep_def(v) for k, v in x.items()}
        if "cut" in y:
            y["cutf"] = [fb(float(c)) for c in y["cut"]]
        return y
    if isinstance(x, list):
        return [prep_def(v) for v in x]
    return x


def prep_op(op):
    o = prep_def(op)
    k = op["op"]
    if k == "process":
        m = int(op["max"]["w"])
        o["max"] = [] if m > 10**9 else [m]
    elif k == "find":
        o["segs"] = op["path"].split(op["sep"])
        o["then"] = [p.split(op["sep"]) for p in op["then"]]
        del o["path"]
    elif k == "reset":
        o.setdefault("n", False)
    return o


def prep_event(line):
    e = json.loads(line)
    op, res = e["op"], e["res"]
    if "json_text" in res:
        res = dict(res)
        res["json"] = json_tree(res.pop("json_text"))
    if op["op"] == "find" and res.get("ok"):
        res.pop("disp", None)
        for t in res["then"]:
            t.pop("disp", None)
    return {"op": conv(prep_op(op)), "res": conv(res)}


# ---- running ---------------------------------------------------------------
def run_tlc(module, cfg, workdir, env=None, workers=1, heap="2g", timeout=800, extra=()):
    """TLC in a scratch directory of its own; returns its output"""
    meta = os.path.join(workdir, "tlc-" + hashlib.md5((module + cfg + str(env)).encode()).hexdigest()[:8])
    shutil.rmtree(meta, ignore_errors=True)
    os.makedirs(meta)
    e = dict(os.environ)
    e.update(env or {})
    cmd = ["java", "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-XX:ParallelGCThreads=2", "-Xmx" + heap, "-Xss256m", "-cp", JARS, "tlc2.TLC", "-metadir", meta, "-workers", str(workers), "-noGenerateSpecTE",
           "-config", cfg, *extra, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC timed out on %s" % module)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    return r.returncode, r.stdout


class Verdict:
    """what running sessions on the library and the specification gave"""

    def __init__(self):
        self.sessions = 0
        self.ops = 0
        self.opkinds = {}
        self.violations = []   # dicts: what, session (ops), expected, actual
        self.wall = {}

    def merge(self, o):
        self.sessions += o.sessions
        self.ops += o.ops
        for k, v in o.opkinds.items():
            self.opkinds[k] = self.opkinds.get(k, 0) + v
        self.violations += o.violations


def check_file(path, sessions, workdir, trace_module="TraceMetrix"):
    v = Verdict()
    with open(path, "w") as f:
        for s in sessions:
            for op in s:
                f.write(json.dumps(op, ensure_ascii=False))
                f.write("\n")
    out = path + ".out"
    r = subprocess.run([BIN, "seq", path, out], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=600)
    if r.returncode != 0:
        # the library hung or took the process down
        done = 0
        if os.path.exists(out):
            done = sum(1 for _ in open(out))
        m = re.search(r"HANG (.*)", r.stderr)
        if m or r.returncode < 0:
            what = "hang" if m else "process ended by signal %d" % -r.returncode
            opl = json.loads(m.group(1)) if m else None
            v.violations.append({"what": what, "session": find_session(sessions, opl) if opl else [], "expected": "the call returns", "actual": what + " in " + (m.group(1) if m else "?")})
            return v
        raise ToolError("harness failed (%d): %s" % (r.returncode, r.stderr[-2000:]))
    trace = path + ".trace"
    lines = open(out).read().split("\n")
    events = []
    with open(trace, "w") as f:
        for l in lines:
            if l:
                events.append(l)
                f.write(json.dumps(prep_event(l), ensure_ascii=False))
                f.write("\n")
    rc, txt = run_tlc(trace_module, trace_module + ".cfg", workdir, env={"TRACE": trace})
    m = re.search(r'<<"CHECKED", (\d+), (\d+)>>', txt)
    if not m or int(m.group(1)) != len(events):
        with open(os.path.join(workdir, "tlc-error.txt"), "w") as f:
            f.write(txt)
        raise ToolError("TLC did not finish %s (see tlc-error.txt):\n%s" % (trace, txt[-3000:]))
    v.sessions = len(sessions)
    v.ops = len(events)
    for l in events:
        k = re.search(r'"op": ?"(\w+)"', l).group(1)
        v.opkinds[k] = v.opkinds.get(k, 0) + 1
    for mm in re.finditer(r'<<\s*"MISMATCH",\s*(\d+),\s*(".*?")\s*>>', txt, re.S):
        i = int(mm.group(1)) - 1
        j = i
        while json.loads(events[j])["op"]["op"] != "reset":
            j -= 1
        ev = [json.loads(x) for x in events[j:i + 1]]
        try:
            exp = json.loads(json.loads(mm.group(2).replace("\n", "")))
        except ValueError:
            exp = mm.group(2)
        v.violations.append({"what": "difference", "session": [e["op"] for e in ev], "expected": exp, "actual": ev[-1]["res"]})
    return v


def run_model(ws, work, tier, timeout):
    """explores the worlds completely; the behaviours taken, or the broken invariant"""
    from worlds import spec_world
    t0 = time.time()
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, "worlds.ndjson")
    with open(path, "w") as f:
        for x in ws:
            f.write(json.dumps(spec_world(x), ensure_ascii=False) + "\n")
    rc, txt = run_tlc("MC", "MC.cfg", work, env={"WORLDS": path}, workers=CORES, heap="12g", timeout=timeout)
    r = {"violation": None, "leaves": [], "states": 0, "transitions": 0, "depth": max(x["depth"] for x in ws), "wall_s": 0}
    m = re.search(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", txt)
    if m:
        r["transitions"], r["states"] = int(m.group(1)), int(m.group(2))
    if rc != 0 or not m:
        with open(os.path.join(work, "tlc-error.txt"), "w") as f:
            f.write(txt)
        i = txt.find("Error:")
        r["violation"] = txt[i:i + 200] + " ... " + txt[-1800:]
    leaves = {tuple((k,)) + tuple(js) for k, js in (json.loads(json.loads(l)[5:]) for l in txt.split("\n") if l.startswith('"LEAF '))}
    r["leaves"] = [(x[0] - 1, list(x[1:])) for x in sorted(leaves)]
    r["wall_s"] = round(time.time() - t0, 1)
    return r


def run_live(props, ws, work, timeout=250):
    """liveness of small worlds under fair scheduling (LiveSys)"""
    from worlds import spec_world
    t0 = time.time()
    os.makedirs(work, exist_ok=True)
    path = os.path.join(work, "live.ndjson")
    with open(path, "w") as f:
        for x in ws:
            f.write(json.dumps(spec_world(x), ensure_ascii=False) + "\n")
    cfg = os.path.join(work, "LiveSys.cfg")
    with open(cfg, "w") as f:
        f.write("SPECIFICATION Spec\nPROPERTY %s\nCHECK_DEADLOCK FALSE\n" % " ".join(props))
    rc, txt = run_tlc("LiveSys", cfg, work, env={"WORLDS": path}, workers=CORES, heap="8g", timeout=timeout, extra=("-lncheck", "final"))
    m = list(re.finditer(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left", txt))[-1:]
    if rc != 0 or not m:
        with open(os.path.join(work, "tlc-error.txt"), "w") as f:
            f.write(txt)
        raise ToolError("the model itself breaks a liveness property:\n" + txt[-3000:])
    return {"states": int(m[0].group(2)), "transitions": int(m[0].group(1)), "props": props, "worlds": len(ws), "wall_s": round(time.time() - t0, 1)}


def find_session(sessions, op):
    for s in sessions:
        for i, o in enumerate(s):
            if o == op:
                return s[:i + 1]
    return [op]


def run_sessions(sessions, workdir, tag, trace_module="TraceMetrix"):
    """sessions: lists of operations; each gets its reset in front"""
    os.makedirs(workdir, exist_ok=True)
    total = Verdict()
    n = max(1, CORES)
    chunks = [[] for _ in range(n)]
    sizes = [0] * n
    for s in sorted(sessions, key=len, reverse=True):
        k = sizes.index(min(sizes))
        chunks[k].append(s)
        sizes[k] += len(s)
    jobs = [(os.path.join(workdir, "%s-%d" % (tag, k)), c) for k, c in enumerate(chunks) if c]
    with ThreadPoolExecutor(max_workers=n) as ex:
        for v in ex.map(lambda j: check_file(j[0], j[1], workdir, trace_module), jobs):
            total.merge(v)
    for p, _ in jobs:
        for suf in ("", ".out", ".trace"):
            try:
                os.unlink(p + suf)
            except OSError:
                pass
    return total
