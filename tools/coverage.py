#!/usr/bin/env python3
"""coverage.py [N]   which lines of the library do the traces not reach?
Builds the harness with coverage instrumentation (in a directory of its own under work/),
executes N sessions of every kind and property, prints the lines never executed."""
import glob, json, os, re, subprocess, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from mxcore import *
import gens, gensys, free, worlds

N = int(sys.argv[1]) if len(sys.argv) > 1 else 150
T = os.path.join(VERIF, "work", "cov")
os.makedirs(T, exist_ok=True)
for f in glob.glob(T + "/*.profraw"):
    os.unlink(f)
LL = "/root/.rustup/toolchains/stable-x86_64-unknown-linux-gnu/lib/rustlib/x86_64-unknown-linux-gnu/bin/"
env = dict(os.environ, CARGO_NET_OFFLINE="true", RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", RUSTFLAGS="-Cinstrument-coverage", CARGO_TARGET_DIR=T + "/target", LLVM_PROFILE_FILE="%s/build-%%p.profraw" % T)
subprocess.run(["cargo", "build", "--offline", "--quiet"], cwd=HARNESS, env=env, check=True)
exe = T + "/target/debug/mxh"
ps = []
for k in range(1, 24):
    p = "C%02d" % k
    ss = (gens.sessions(p, N, 1) if p in gens.PROFILES else []) + gens.sweeps(p, 1) + (gensys.sys_sessions(p, N, 1) if p in gensys.SYS else [])
    ss = [gens.varied(gens.Gen("cov/%s/%d" % (p, j)), x) for j, x in enumerate(ss)]
    i = "%s/%s.in" % (T, p)
    with open(i, "w") as f:
        for s in ss:
            for o in s:
                f.write(json.dumps(o) + "\n")
    ps.append(subprocess.Popen([exe, "seq", i, i + ".out"], env=dict(env, LLVM_PROFILE_FILE="%s/%s.profraw" % (T, p)), stderr=subprocess.DEVNULL))
    if p in free.ROUNDS:
        g = gens.Gen("cov/" + p)
        i = "%s/%s.lin" % (T, p)
        with open(i, "w") as f:
            for j in range(60):
                f.write(json.dumps(free.ROUNDS[p][j % len(free.ROUNDS[p])](g)) + "\n")
        ps.append(subprocess.Popen([exe, "lin", i, i + ".out", "2000"], env=dict(env, LLVM_PROFILE_FILE="%s/%s-lin.profraw" % (T, p)), stderr=subprocess.DEVNULL))
    while sum(x.poll() is None for x in ps) >= CORES:
        [x.wait() for x in ps[:1]]
        ps = [x for x in ps if x.poll() is None]
[x.wait() for x in ps]
subprocess.run([LL + "llvm-profdata", "merge", "-sparse", "-o", T + "/all.profdata"] + glob.glob(T + "/C*.profraw"), check=True)
r = subprocess.run([LL + "llvm-cov", "show", exe, "-instr-profile", T + "/all.profdata", "--show-line-counts-or-regions=false", "/repo/src"], stdout=subprocess.PIPE, text=True)
f, out, seen = "", {}, {}
for l in r.stdout.split("\n"):
    if l.startswith("/repo/src"):
        f = l.rstrip(":")
    m = re.match(r"\s*(\d+)\|\s*([\d.kMGE]*)\|(.*)", l)
    if m and m.group(2):
        n = int(m.group(1))
        k = (f, n)
        seen[k] = (seen.get(k, ("0", ""))[0] if seen.get(k, ("0", ""))[0] != "0" else m.group(2), m.group(3))
skip = set()
for (f, n), (c, t) in sorted(seen.items()):
    if "cfg(test)" in t or re.search(r"^\s*mod tests?\b", t):
        skip.add(f)
    if c == "0" and f not in skip:
        out.setdefault(f, []).append((n, t))
tot = len(seen)
print("%d of %d lines not executed" % (sum(len(x) for x in out.values()), tot))
for f, ls in out.items():
    print("\n" + f)
    for n, t in ls:
        print("%5d %s" % (n, t))
