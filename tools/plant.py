#!/usr/bin/env python3
"""plant.py verify [ID...]   each planted bug applies, builds, passes the stable tests, and its demo tells it apart (in a scratch copy)
plant.py catch [ID...]    runs this tree's checks against the planted bugs (applied to /repo, undone afterwards)"""
import json, os, subprocess, sys, shutil, time, glob
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SEEDED = os.path.join(VERIF, "seeded")
SCRATCH = "/tmp/plant-verify"
ENV = dict(os.environ, RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never")


def sh(cmd, cwd, timeout=600):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=ENV, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"


def stable_tests(repo):
    rc, out = sh(["cargo", "test", "--workspace", "--all-features", "--no-fail-fast", "--offline"], repo)
    log, res = SCRATCH + "/test.log", SCRATCH + "/test.json"
    open(log, "w").write(out)
    sh(["python3", "/opt/vp/results.py", res, "cargo:" + log], repo)
    r = json.load(open(res))
    passed = set(r.get("passed", []))
    return [t for t in json.load(open("/opt/vp/BASELINE.json"))["stable"] if t not in passed], out


def verify(ids):
    bad = 0
    shutil.rmtree(SCRATCH, ignore_errors=True)
    os.makedirs(SCRATCH)
    repo = SCRATCH + "/repo"
    subprocess.run(["cp", "-a", "/repo", repo], check=True)
    for i in ids:
        d = os.path.join(SEEDED, i)
        laid = SCRATCH + "/laid"
        shutil.rmtree(laid, ignore_errors=True)
        os.makedirs(laid)
        for f in os.listdir(d):
            if not f.endswith((".diff", ".json")):
                shutil.copy(os.path.join(d, f), laid)
        msgs = []
        rc, out = sh(["bash", laid + "/demo.sh"], repo, 300)
        if rc != 0:
            msgs.append("demo fails on the unchanged tree: " + out[-600:])
        rc, out = sh(["git", "apply", os.path.join(d, "patch.diff")], repo)
        if rc != 0:
            msgs.append("patch does not apply: " + out)
        else:
            for a in (["build", "--all-features"], ["build", "--no-default-features"]):
                rc, out = sh(["cargo"] + a + ["--offline"], repo)
                if rc != 0:
                    msgs.append("does not build: " + out[-1500:])
            missing, out = stable_tests(repo)
            if missing:
                msgs.append("tests fail: %s" % missing[:5])
            rc, out = sh(["bash", laid + "/demo.sh"], repo, 300)
            if rc == 0:
                msgs.append("demo passes with the patch")
            last = [l for l in out.splitlines() if l.strip()][-3:]
        sh(["git", "checkout", "-q", "--", "."], repo)
        print(i, "ok" if not msgs else "; ".join(msgs), "" if msgs else " | ".join(last)[:200], flush=True)
        bad += bool(msgs)
    shutil.rmtree(SCRATCH, ignore_errors=True)
    return bad


def catch(ids):
    bad = 0
    for i in ids:
        d = os.path.join(SEEDED, i)
        meta = json.load(open(d + "/meta.json"))
        rc, out = sh(["git", "-C", "/repo", "apply", d + "/patch.diff"], "/repo")
        if rc != 0:
            print(i, "does not apply", out)
            continue
        t = time.time()
        try:
            rc, out = sh([sys.executable, os.path.join(VERIF, "tools/check.py"), meta["property"], "quick"], VERIF, 900)
        finally:
            sh(["git", "-C", "/repo", "checkout", "-q", "--", "."], "/repo")
        part = [l for l in out.splitlines() if " in part " in l]
        ok = rc == 1 and "VIOLATION property=%s" % meta["property"] in out
        print("%-26s %s %-7s %4.0f s  %s" % (i, meta["property"], "caught" if ok else "MISSED" if rc == 0 else "rc=%d" % rc, time.time() - t, (part or [out[-300:] if not ok else ""])[0][:110]), flush=True)
        bad += not ok
    return bad


if __name__ == "__main__":
    ids = sys.argv[2:] or sorted(os.listdir(SEEDED))
    sys.exit(1 if (verify if sys.argv[1] == "verify" else catch)(ids) else 0)
