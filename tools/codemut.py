#!/usr/bin/env python3
"""codemut.py OUT [FILE-REGEX]   what changes of the code do the traces not notice?
Mutates single lines of (copies of) the library, executes the same sessions on the original and on
the mutant, and lists the mutants that show no difference at all. A difference here is one in what was
recorded; whether it is one that matters is for the specification to say (check.py), so this is
an upper bound for what can be noticed: survivors are what the sessions never exercise (or nothing).
Works in /tmp/codemut, uses all cores."""
import json, os, re, shutil, subprocess, sys, threading, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mxcore import *
import gens, gensys, worlds, random

BASE = "/tmp/codemut"
W = int(os.environ.get("W", "6"))
N = int(os.environ.get("N", "60"))
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_PROFILE_DEV_DEBUG="0")

def sh(c, cwd, t=None):
    try:
        return subprocess.run(c, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=t).returncode
    except subprocess.TimeoutExpired:
        return -99

def mutants(rx):
    out = []
    root = "/repo/src"
    for d, _, fs in os.walk(root):
        for f in sorted(fs):
            p = os.path.relpath(os.path.join(d, f), root)
            if not f.endswith(".rs") or f in ("test.rs", "multi_meter.rs", "jemalloc.rs") or not re.search(rx, p):
                continue
            comment = False
            for n, l in enumerate(open(os.path.join(d, f)).read().split("\n")):
                t = l.strip()
                if t.startswith("#[cfg(test)]") or t.startswith("#[test]"):
                    break
                if t.startswith("/*"):
                    comment = True
                if comment:
                    comment = "*/" not in t
                    continue
                if not t or t.startswith(("//", "use ", "#", "pub use", "mod ", "pub mod")):
                    continue
                seen = {l}
                def add(x):
                    if x not in seen:
                        seen.add(x)
                        out.append((p, n, l, x))
                def subs(pat, rep):
                    for m in re.finditer(pat, l):
                        add(l[:m.start()] + m.expand(rep) + l[m.end():])
                generic = re.search(r"\b(impl|fn|struct|enum|trait|where)\b|->|Option<|Vec<|Box<", t)
                if not generic or re.search(r" (<|>|<=|>=) ", t):
                    subs(r" < ", " <= "); subs(r" <= ", " < "); subs(r" > ", " >= "); subs(r" >= ", " > "); subs(r" > ", " < "); subs(r" < ", " > ")
                subs(r" == ", " != "); subs(r" != ", " == "); subs(r" && ", " || "); subs(r" \|\| ", " && ")
                subs(r"\btrue\b", "false"); subs(r"\bfalse\b", "true")
                subs(r" \+ ", " - "); subs(r" - ", " + "); subs(r" \* ", " / "); subs(r" / ", " * "); subs(r" \+= ", " -= "); subs(r" \+= ", " = "); subs(r" -= ", " += ")
                subs(r"\bif !", "if "); subs(r"!self", "self"); subs(r"\bmin\(", "max("); subs(r"\bmax\(", "min(")
                subs(r"\.iter\(\)", ".iter().skip(1)"); subs(r"\.iter_mut\(\)", ".iter_mut().skip(1)")
                for m in re.finditer(r"(?<![\w.])(\d[\d_]*)(?![\w.])", l):
                    v = int(m.group(1).replace("_", ""))
                    add(l[:m.start()] + str(v + 1) + l[m.end():])
                    if v > 1:
                        add(l[:m.start()] + str(v - 1) + l[m.end():])
                subs(r"(\d)\.(\d+)", r"\g<1>.5\g<2>")
                subs(r'"([^"]+)"\.to', r'"\1X".to')
                subs(r"Some\((\w+(\.\w+\(\))?)\)", "None")
                if not t.startswith(("let ", "return", "pub ", "const ", "static ", "type ")) and t.endswith(";") and t.count("(") == t.count(")") and t.count("{") == t.count("}") and not t.startswith(("}", ".", ")")):
                    add("")
                if t.startswith("return") and t.endswith(";"):
                    add("")
                subs(r"^(\s+)continue;", r"\1")
    return out

def sessions():
    out = {}
    for k in range(1, 24):
        p = "C%02d" % k
        a = (gens.sessions(p, N, 1) if p in gens.PROFILES else []) + gens.sweeps(p, 1)
        b = gensys.sys_sessions(p, N, 1) if p in gensys.SYS and p != "C02" else []   # which waiting senders get in during a pass is open
        a = a if len(a) < 6 * N else random.Random(1).sample(a, 6 * N)
        ss = [gens.varied(gens.Gen("m/%s/%d" % (p, j)), x) for j, x in enumerate(a + b)]
        out[p] = BASE + "/" + p + ".in"
        with open(out[p], "w") as f:
            for s in ss:
                for o in s:
                    f.write(json.dumps(o) + "\n")
    return out

def first(lines, blines, ign):
    return next((n for n, (x, y) in enumerate(zip(lines, blines)) if x != y and n not in ign), None)

def run_all(exe, ins, tag, base=None, order=None):
    """the outputs, or (with base) the property whose sessions show a difference, or None"""
    res = {}
    ps = sorted(ins, key=lambda p: order.get(p, 0) if order else 0, reverse=True)
    for p in ps:
        o = "%s/%s.%s.out" % (BASE, p, tag)
        rc = sh([exe, "seq", ins[p], o], BASE, 300)
        lines = open(o).read().split("\n") if os.path.exists(o) else []
        if os.path.exists(o):
            os.unlink(o)
        if base is None:
            res[p] = (rc, lines)
            continue
        brc, blines, ign = base[p]
        if rc != brc or len(lines) != len(blines) or any(x != y and n not in ign for n, (x, y) in enumerate(zip(lines, blines))):
            # once more: some things (how far a released sender came) are open
            d = first(lines, blines, ign)
            rc = sh([exe, "seq", ins[p], o], BASE, 300)
            lines = open(o).read().split("\n") if os.path.exists(o) else []
            if rc != brc or (d is not None and d == first(lines, blines, ign)) or len(lines) != len(blines):
                return p
    return res if base is None else None

def main():
    outp, rx = sys.argv[1], sys.argv[2] if len(sys.argv) > 2 else ""
    shutil.rmtree(BASE, ignore_errors=True)
    os.makedirs(BASE)
    ins = sessions()
    for k in range(W):
        w = "%s/w%d" % (BASE, k)
        os.makedirs(w)
        subprocess.run(["cp", "-a", "/repo", w + "/repo"], check=True)
        subprocess.run(["rsync", "-a", "--exclude", "target", HARNESS + "/", w + "/harness/"]) if shutil.which("rsync") else shutil.copytree(HARNESS, w + "/harness", ignore=shutil.ignore_patterns("target"))
        c = open(w + "/harness/Cargo.toml").read().replace('"/repo"', '"%s/repo"' % w)
        open(w + "/harness/Cargo.toml", "w").write(c)
    def build(k):
        return sh(["cargo", "build", "--offline", "--quiet"], "%s/w%d/harness" % (BASE, k), 300)
    ts = [threading.Thread(target=build, args=(k,)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]
    exe = lambda k: "%s/w%d/harness/target/debug/mxh" % (BASE, k)
    runs = [None] * 3
    def baserun(k):
        runs[k] = run_all(exe(k), ins, "b%d" % k)
    t0 = time.time()
    ts = [threading.Thread(target=baserun, args=(k,)) for k in range(3)]
    [t.start() for t in ts]; [t.join() for t in ts]
    base = {}
    for p in ins:
        rc, ls = runs[0][p]
        ign = {n for r in runs[1:] for n, (x, y) in enumerate(zip(ls, r[p][1])) if x != y}
        base[p] = (rc, ls, ign)
        print(p, rc, len(ls), len(ign), flush=True)
    print("baseline %.1f s" % (time.time() - t0), flush=True)
    ms = mutants(rx)
    print(len(ms), "mutants", flush=True)
    done = {}
    if os.path.exists(outp):
        for l in open(outp):
            d = json.loads(l)
            done[(d["f"], d["n"], d["to"])] = d
    todo = [m for m in ms if (m[0], m[1], m[3]) not in done]
    lock = threading.Lock()
    of = open(outp, "a")
    kills = {}
    def work(k):
        w = "%s/w%d" % (BASE, k)
        while True:
            with lock:
                if not todo:
                    return
                f, n, old, new = todo.pop()
            p = w + "/repo/src/" + f
            src = open("/repo/src/" + f).read()
            ls = src.split("\n")
            ls[n] = new
            open(p, "w").write("\n".join(ls))
            r = "nobuild"
            if build(k) == 0:
                r = run_all(exe(k), ins, "w%d" % k, base, kills.get(f)) or "SURVIVED"
            open(p, "w").write(src)
            with lock:
                kills.setdefault(f, {}).setdefault(r, 0)
                kills[f][r] += 1
                of.write(json.dumps({"f": f, "n": n, "from": old.strip(), "to": new, "r": r}) + "\n")
                of.flush()
    ts = [threading.Thread(target=work, args=(k,)) for k in range(W)]
    [t.start() for t in ts]; [t.join() for t in ts]

main()
