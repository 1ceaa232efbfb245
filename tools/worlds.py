"""The small worlds that module MC explores completely: what there is to begin
with, which operations follow in any order, how many of them."""
import itertools
from mxcore import w, fb, conv, prep_op
from gens import Gen, reset, new, snap, adv, I64MAX, I64MIN, U64MAX, UMAX

ALL, KEEP = Gen.ALL, Gen.KEEP


# ---- short forms ---------------------------------------------------------------
def labels(*ls):
    return {"k": "labels", "ls": list(ls), "m": 2, "r": 0, "add": [], "via": "vec", "how": "new"}


def one(l=1, ts=0):
    return {"k": "1", "l": l, "ts": ts}


def many(c, l=1, ts=0):
    return {"k": "n", "l": l, "ts": ts, "c": w(c)}


def val(src, l=1, ts=0):
    return {"k": "v", "l": l, "ts": ts, "v": src}


def i64(x):
    return {"vt": "i64", "x": w(x)}


def u64(x):
    return {"vt": "u64", "x": w(x)}


def flt(x):
    return {"vt": "f", "x": fb(x)}


def dur(ns):
    return {"vt": "d", "x": {"secs": w(ns // 10**9), "nanos": ns % 10**9}}


def chg(x):
    return {"vt": "chg", "x": w(x)}


INC, DEC = {"vt": "inc", "x": w(0)}, {"vt": "dec", "x": w(0)}


def bool_(b):
    return {"vt": "b", "x": b}


def obs(o, id="X"):
    return {"op": "obs", "id": id, "o": o}


def send(o, tx="tx", api="observed"):
    return {"op": "send", "tx": tx, "o": o, "api": api}


def ctl(c, tx="tx"):
    return {"op": "ctl", "tx": tx, "c": c}


def process(max=None, st=None, id="P"):
    return {"op": "process", "id": id, "max": UMAX if max is None else w(max), "st": st or {"k": "all"}}


def ins(k, n, **kw):
    d = {"k": k, "n": n, "ti": [], "de": []}
    d.update({"gauge": dict(unit="ms", group=False, track=0, init=[]), "meter": dict(r1=True, r5=True, r15=True, cut=[]), "vmeter": dict(r1=True, r5=True, r15=True, cut=[], unit="ms"),
              "histo": dict(unit="ms", limit=[], reset=False, show=True), "flag": dict(init=[], alt=[]), "stair": dict(dur=[], inv=False, alt=[]), "occ": dict(dur=[], inv=False, alt=[]),
              "nonocc": dict(dur=[], inv=False, alt=[]), "disp": dict(dur=[], rv=[]), "last": dict(mkzero=False)}.get(k, {}))
    d.update(kw)
    return d


def h(x):
    return {"slot": "handler", "x": x, "b": False}


def at(slot, x, b=False):
    return {"slot": slot, "x": x, "b": b}


def adp(i, f=ALL, m=KEEP):
    return {"k": "adp", "i": i, "f": f, "m": m}


def gadp(i, st="filter", f=ALL, f2=None):
    d = {"k": "gadp", "st": st, "i": i, "f": f}
    if st == "incdec":
        d["f2"] = f2
    return d


def rec(id, n=None, ret=1):
    return {"k": "rec", "id": id, "n": n or id, "ret": ret}


def opt(n):
    return [] if n is None else [n]


def panel(items, n=None, f=ALL, **kw):
    return dict({"k": "panel", "f": f, "n": opt(n), "ti": [], "de": [], "limit": [], "show": False, "items": items}, **kw)


def cockpit(items, n=None, **kw):
    return dict({"k": "cockpit", "n": opt(n), "ti": [], "de": [], "limit": [], "show": False, "items": items}, **kw)


def proc(items, n=None, tx="tx", cap=None, block=False, **kw):
    return dict({"k": "proc", "n": opt(n), "limit": [], "show": False, "cap": opt(cap), "block": block, "tx": tx, "items": items}, **kw)


def mount(items, n=None, **kw):
    return dict({"k": "mount", "n": opt(n), "limit": [], "items": items}, **kw)


def drv(n=None, mx="none", st=None, id="D1", h="h1"):
    return {"op": "dnew", "id": id, "h": h, "x": {"n": opt(n), "ti": [], "de": [], "st": st or {"k": "all"}, "m": mx != "none", "mx": mx, "auto": False, "via": "builder"}}


def probe(id, n, gp=False, gs=False, outs=()):
    return {"k": "probe", "id": id, "n": n, "gp": gp, "gs": gs, "outs": list(outs)}


def put(what, where, x, **kw):
    k, v = where
    return dict({"op": "put", "what": what, "dyn": True, k: v, ("x" if isinstance(x, dict) else "child"): x}, **kw)


def step(times=1, id="D1"):
    return {"op": "dstep", "id": id, "times": times}


def dreq(t, sync=False, h="h1", d=False):
    return {"op": "dreq", "h": h, "t": t, "sync": sync, "d": d}


def cancel(t):
    return {"op": "dcancel", "t": t}


def world(setup, alpha, depth, invs, look=(), end=(), n=True, module="TraceMetrix", **extra):
    al = [a if isinstance(a, tuple) else (a, 99) for a in alpha]
    return dict(setup=setup, alpha=al, depth=depth, invs=invs, look=list(look), end=list(end), n=n, module=module, **extra)


def sysworld(*a, **kw):
    return world(*a, module="TraceSys", n=False, **kw)


def spec_world(x):
    """a world as the specification reads it"""
    y = {k: v for k, v in x.items() if k not in ("look", "end", "n", "module")}
    y["setup"] = [conv(prep_op(o)) for o in x["setup"]]
    y["alpha"] = [{"op": conv(prep_op(o)), "max": m} for o, m in x["alpha"]]
    return y


def session(x, js):
    """the operations of a behaviour, for the library"""
    s = [reset(x["n"])] + list(x["setup"])
    for j in js:
        s.append(x["alpha"][j - 1][0])
        s += x["look"]
    return s + x["end"]


# ---- streams: one processor ------------------------------------------------------
def stream_setup(cap=None, block=False):
    return [new("P", proc([h(rec("r1", ret=2)), at("cockpit", cockpit([h(rec("r3"))], "z"))], "P", cap=cap, block=block))]


ADD2 = ctl({"k": "add_handler", "x": rec("r2")})
REMZ = ctl({"k": "remove_cockpit", "n": "z"})
LOGS = [{"op": "log", "id": i} for i in ("r1", "r3")]


def w01(tier):
    d = 5 if tier == "quick" else 6
    s = stream_setup() + [{"op": "clone", "tx": "tx", "to": "ty"}]
    return [world(s, [send(one(1)), send(val(i64(7), 2), "ty"), (ADD2, 1), (REMZ, 1), process(1), (process(), 2), ({"op": "droptx", "tx": "tx"}, 1), ({"op": "droptx", "tx": "ty"}, 1)],
                  d, ["P01", "P03"], look=LOGS, end=[process(), {"op": "log", "id": "r1"}, {"op": "log", "id": "r2"}, {"op": "log", "id": "r3"}, snap("P")], cap=[])]


def w02(tier):
    d = 5 if tier == "quick" else 7
    q = {"op": "q", "tx": "tx"}
    ws = [world(stream_setup(c), [send(one(1)), (send(many(3, 2)), 3), (ADD2, 1), process(1), (process(2), 2), (process(), 2)], d, ["P02", "P01"], look=[q] + LOGS, end=[process(), q, {"op": "log", "id": "r1"}, {"op": "log", "id": "r2"}], cap=[c])
          for c in (0, 1, 2, 3)]
    # senders that wait for room; without any room (0) messages are handed over directly
    def bs(b, o):
        return {"op": "bsend", "b": b, "tx": "tx", "o": o, "api": "observed"}
    for c in (0, 1, 2):
        ws.append(sysworld(stream_setup(c, True), [(bs("b1", one(1)), 1), (bs("b2", one(2)), 1), (bs("b3", one(3)), 1), (bs("b4", one(4)), 1), process(1), (process(0), 1), (process(), 1), (adv(3600000), 1), ({"op": "drop", "id": "P"}, 1)], 5 if tier == "quick" else 7,
                           ["P02b"], look=[{"op": "bstat"}, q], end=[{"op": "log", "id": "r1"}, {"op": "drop", "id": "Z"}][:1], cap=[c]))
    return ws


def w03(tier):
    d = 5 if tier == "quick" else 6
    ws = [world(stream_setup(), [send(one(1)), send(val(dur(5), 2)), (ADD2, 1), process(0), process(1), process(2), process(), process(1, {"k": "none"})], d, ["P03", "P03u"], end=[process()], cap=[])]
    # a handler that sends while messages are taken
    ws.append(world(stream_setup() + [dict(ctl({"k": "add_handler", "x": {"k": "echo", "l": 1, "l2": 2, "tx": "tx", "to": "tx"}}), echo=True), process()],
                    [send(one(1)), send(one(3)), process(0), process(1), process(2), process(), process(1, {"k": "none"})], d, ["P03e"], look=LOGS[:1], end=[process()], cap=[]))
    # an aggregate: two processors in a mount
    s = [new("P", mount([at("proc", proc([h(rec("r1", ret=2))], "A", "tx")), at("mount", mount([at("proc", proc([h(rec("r2", ret=3))], "B", "ty"))]))]))]
    ws.append(world(s, [send(one(1)), send(one(2), "ty"), process(0), process(1), process(2), process(), process(1, {"k": "none"})], d, ["P03m"], end=[process()], cap=[]))
    return ws


def w04(tier):
    d = 4 if tier == "quick" else 5
    age = lambda a, dd: {"k": "age", "age": a, "dd": dd}
    ws = []
    for sts in ([{"k": "all"}, {"k": "none"}, age(1000, True)], [age(1000, False), age(0, True), age(-1, True)], [{"k": "default"}, age(1000, True), age(0, False)]):
        ws.append(world(stream_setup(), [send(one(1)), send(val(INC, 2, -1000)), send(val(chg(-3), 3, -30001)), send(many(2, 4, -1001)), send(val(i64(5), 5, 500)), adv(1000), adv(1)] + [process(None, s) for s in sts] + [process(1, sts[0])],
                        d, ["P04"], look=[{"op": "log", "id": "r1"}], end=[process(None, sts[0]), {"op": "log", "id": "r1"}, snap("P")], cap=[]))
    ws.append(world(stream_setup(), [(ADD2, 1), (REMZ, 1), send(one(1)), process(None, {"k": "none"}), process(1, {"k": "none"}), process()], d + 1, ["P04", "P01"], end=[process(), snap("P"), {"op": "log", "id": "r2"}], cap=[]))
    return ws


def acc(f, l):
    base = {"all": True, "none": False, "labels": l in f["ls"], "pred": l % f["m"] == f["r"]}[f["k"]]
    return base or l in f["add"]


def w05(tier):
    g = Gen("worlds/05")
    ws = []
    L = range(6)
    for k in range(24 if tier == "quick" else 150):
        leaves = []

        def filt():
            return g.filt(g.ch(["labels", "labels", "pred", "all", "none"]), "acc")

        def leaf(path, ok):
            n = g.name("c")
            f = filt()
            leaves.append({"path": path + [n], "ls": [l for l in L if ok(l) and acc(f, l)]})
            return adp(ins("counter", n), f)

        def mkpanel(path, ok, depth):
            f = filt()
            n = g.name("p") if g.p(0.6) else None
            p2 = path + [n] if n else path
            ok2 = lambda l: ok(l) and acc(f, l)
            items = [at("counter", leaf(p2, ok2))]
            for _ in range(g.r.randint(0, 2)):
                items.append(h(leaf(p2, ok2)))
            if depth:
                items.append(at("panel", mkpanel(p2, ok2, depth - 1)))
            g.r.shuffle(items)
            return panel(items, n, f)

        yes = lambda l: True
        cn = g.name("k") if g.p(0.5) else None
        cp = ["P"] + ([cn] if cn else [])
        items = [h(leaf(["P"], yes)), at("cockpit", cockpit([at("panel", mkpanel(cp, yes, 2)), h(leaf(cp, yes))], cn))]
        ws.append(world([new("P", proc(items, "P"))], [(send(one(l)), 1) for l in L] + [process()], 2 if tier == "quick" else 3, ["P05"], end=[send(one(l)) for l in L] + [process(), snap("P")], cap=[], accept=leaves))
    return ws


def xpanel(items):
    return [new("X", panel(items))]


def w06(tier):
    d = 4 if tier == "quick" else 5
    s = xpanel([at("counter", adp(ins("counter", "c"))), at("meter", adp(ins("meter", "m"))), h(adp(ins("vmeter", "v")))])
    a = [one(), many(0), many(3), many(2**63), many(U64MAX), val(i64(5)), val(i64(-5)), val(u64(U64MAX)), val(dur(1500000)), val(flt(2.5)), val(flt(-1.0)), val(INC), val(bool_(True))]
    return [world(s, [obs(o) for o in a[:7]] + [adv(5000)], d, ["P06"], look=[snap("X")]), world(s, [obs(a[0]), obs(a[2])] + [obs(o) for o in a[7:]] + [adv(61000)], d, ["P06"], look=[snap("X")])]


def w07(tier):
    d = 4 if tier == "quick" else 5
    s = xpanel([at("gauge", gadp(ins("gauge", "g"))), h(gadp(ins("gauge", "gd"), "deltas", labels(1))), h(gadp(ins("gauge", "gi"), "incdec", labels(1), labels(2)))])
    a = [val(i64(7), 1), val(INC, 1), val(DEC, 2), val(chg(-3), 1), val(dur(2500000), 2), val(u64(3), 3), one(1), many(4, 2), val(flt(2.5), 1), val(bool_(True), 1)]
    return [world(s, [obs(o) for o in a[:7]], d, ["P07"], look=[snap("X")]), world(s, [obs(a[0]), obs(a[3])] + [obs(o) for o in a[4:]], d, ["P07"], look=[snap("X")])]


def w08(tier):
    d = 5 if tier == "quick" else 6
    s = xpanel([at("gauge", gadp(ins("gauge", "g1", track=1, group=True))), h(gadp(ins("gauge", "g3", track=3, group=True)))])
    return [world(s, [obs(val(i64(5))), obs(val(i64(-2))), obs(val(INC)), adv(400), adv(1000)], d, ["P08"], look=[snap("X")]),
            world(s, [obs(val(i64(9))), obs(val(chg(-4))), adv(1), adv(999), adv(2000), adv(3500)], d - 1 + (tier != "quick"), ["P08"], look=[snap("X")])]


def w09(tier):
    d = 4 if tier == "quick" else 5
    s = xpanel([at("meter", adp(ins("meter", "m")))])
    return [world(s, [obs(one()), obs(many(60)), adv(5000), adv(4999), adv(60000), snap("X")], d, ["P09"], look=[snap("X")]),
            world(s, [obs(many(1)), adv(1), adv(5001), adv(30000), adv(200000)], d, ["P09"], look=[snap("X")])]


def w10(tier):
    d = 4 if tier == "quick" else 5
    s = xpanel([at("histo", adp(ins("histo", "h"))), h(adp(ins("histo", "hr", limit=[2000], reset=True)))])
    vs = [val(i64(5)), val(i64(-2)), val(i64(100)), val(u64(5)), val(dur(7400000)), val(flt(2.5)), one(), val(INC)]
    return [world(s, [obs(vs[0]), obs(vs[1]), obs(vs[2]), obs(vs[6]), adv(1000), adv(1), adv(2000)], d + 1, ["P10"], look=[snap("X")]),
            world(s, [obs(v) for v in vs], d, ["P10"], look=[snap("X")])]


def w11(tier):
    d = 5 if tier == "quick" else 6
    alt = lambda: dict(alt=[{"k": "pre", "s": "not_"}])
    s = xpanel([h(adp(ins("stair", "stair", dur=[2000], **alt()))), h(adp(ins("stair", "stairi", dur=[2000], inv=True, **alt()))), h(adp(ins("occ", "occ", dur=[2000], **alt()))), h(adp(ins("nonocc", "nonocc", dur=[2000], **alt()))),
                h(adp(ins("flag", "flag", **alt()))), h(adp(ins("last", "last"))), h(adp(ins("disp", "disp", dur=[2000], rv=[{"t": "s", "x": "reset"}])))])
    return [world(s, [obs(one()), obs(val(i64(0))), obs(val(bool_(True))), adv(1), adv(999), adv(2000)], d, ["P11"], look=[snap("X")]),
            world(s, [obs(val(u64(3))), obs(val(flt(1.5))), obs(val(bool_(False))), obs(many(2)), obs(val(INC)), adv(1999), adv(1), adv(2001)], d - 1, ["P11"], look=[snap("X")])]


def w12(tier):
    d = 5 if tier == "quick" else 6
    c = cockpit([h(adp(ins("counter", "c"), labels(1, 2))), at("panel", panel([at("counter", adp(ins("counter", "k"), labels(1)))], "p", labels(1, 3), limit=[1000]))], limit=[2000], show=True)
    ws = [world([new("X", c)], [obs(one(1)), obs(one(2)), obs(one(3)), adv(1), adv(999), adv(1000), adv(2000)], d, ["P12"], look=[snap("X"), snap("X", True)])]
    m = mount([at("proc", proc([h(adp(ins("counter", "c")))], "P", limit=[2000]))], limit=[3000])
    ws.append(world([new("M", m)], [send(one(1)), process(None, None, "M"), process(None, {"k": "none"}, "M"), adv(1), adv(2000), adv(3000)], d, ["P12proc"], look=[snap("M"), snap("M", True)]))
    return ws


def w13(tier):
    g = Gen("worlds/13")
    ws = []
    for k in range(30 if tier == "quick" else 250):
        paths, texts = [], []

        def txt(path, n):
            d = {"ti": [], "de": []}
            if g.p(0.4):
                d["ti"] = [g.name("T")]
                texts.append(path + ["_title" + n])
            if g.p(0.4):
                d["de"] = [g.name("D")]
                texts.append(path + ["_description" + n])
            return d

        def leaf(path, kind):
            n = g.name("c")
            k = "const" if kind == "mount" else g.ch(["counter", "rec", "const"])
            if k == "rec":
                paths.append(path + [n])
                return h(rec(g.name("r"), n))
            paths.append(path + [n])
            if k == "const":
                return at("snap", {"k": "const", "n": n, **txt(path, "_" + n), "v": {"t": "s", "x": g.name("v")}})
            return h(adp(ins("counter", n, **txt(path, "_" + n))))

        def level(path, kind, depth):
            n = g.name(kind[0]) if g.p(0.6) else None
            p2 = path + [n] if n else path
            # two unnamed levels in one group would show their texts twice
            t = txt(p2, "") if n and kind in ("panel", "cockpit") else {"ti": [], "de": []}
            items = [leaf(p2, kind) for _ in range(g.r.randint(0, 2))]
            for _ in range(g.r.randint(0, 2) if depth else 0):
                sub = {"cockpit": "panel", "panel": "panel", "proc": "cockpit", "mount": g.ch(["proc", "mount"])}[kind]
                items.append(at(sub, level(p2, sub, depth - 1)))
            g.r.shuffle(items)
            if kind in ("panel", "cockpit"):
                return (panel if kind == "panel" else cockpit)(items, n, **t)
            return proc(items, n, g.name("tx")) if kind == "proc" else mount(items, n)

        x = level([], g.ch(["proc", "cockpit", "panel", "mount"]), 3)
        ws.append(world([new("P", x)], [snap("P"), snap("P", True), adv(1000)], 1 if tier == "quick" else 2, ["P13"], paths=paths, texts=texts, end=[snap("P"), snap("P", True)]))
    return ws


def item(t, x):
    return {"t": t, "x": x}


def grp(*ps):
    return {"t": "g", "x": [{"n": n, "v": v} for n, v in ps]}


def w14(tier):
    ws = []
    I = lambda k: item("i", w(k))
    sns = [grp(), grp(("a", I(1)), ("b", item("s", "x"))), grp(("a", grp(("a", I(1)), ("b", grp(("a", I(2)), ("b", I(3)))))), ("b", I(4))),
           grp(("a", I(1)), ("a", I(2)), ("b", grp(("a", I(3)))), ("b", grp(("b", I(4))))), grp(("a", grp()), ("a", I(5)), ("b", item("b", True))),
           grp(("b", grp(("b", grp(("a", I(6)), ("a", grp(("b", I(7)))))), ("a", item("u", w(9)))))), grp(("", I(8)), ("a", grp(("", grp(("a", I(9))))))), grp(("a", grp(("a", grp(("a", grp(("a", I(1))))))))), grp(("ab", I(1)), ("A", I(2)))]
    segs = ["", "a", "b"]
    n = 4 if tier == "quick" else 5
    paths = sorted({"/".join(p) for k in range(n + 1) for p in itertools.product(segs, repeat=k)})
    for sn in sns:
        ws.append(world([adv(0)], [({"op": "find", "sn": sn["x"], "path": p, "sep": "/", "then": [], "d": False}, 1) for p in paths], 1, ["P14"]))
    return ws


def w15(tier):
    d = 5 if tier == "quick" else 6
    ck = lambda n, r: {"k": "add_cockpit", "x": cockpit([h(rec(r))], n)}
    s = [new("P", proc([at("cockpit", cockpit([h(rec("r1"))], "a"))], "P"))]
    names = {"op": "names", "id": "P"}
    logs = [{"op": "log", "id": "r%d" % k} for k in (1, 2, 3, 4, 5)]
    ws = [world(s, [(ctl(ck("a", "r2")), 1), (ctl(ck("b", "r3")), 1), (ctl(ck(None, "r4")), 1), (ctl(ck(None, "r5")), 1), ctl({"k": "remove_cockpit", "n": "a"}), (ctl({"k": "remove_cockpit", "n": "b"}), 1), (send(one(1)), 3), (process(), 2)],
                d, ["P15"], look=[names], end=[process(), names, snap("P")] + logs, cap=[])]
    # panels of a cockpit, directly
    pn = lambda n, r: {"k": "add_panel", "x": panel([h(rec(r))], n)}
    s2 = [new("X", cockpit([at("panel", panel([h(rec("r1"))], "a"))], "C"))]
    dr = lambda c: {"op": "direct", "id": "X", "c": c}
    ws.append(world(s2, [(dr(pn("a", "r2")), 1), (dr(pn("b", "r3")), 1), (dr(pn(None, "r4")), 1), (dr(pn(None, "r5")), 1), dr({"k": "remove_panel", "n": "a"}), dr({"k": "remove_panel", "n": "b"}), (obs(one(1)), 3)], d, ["P15d"], look=[{"op": "names", "id": "X"}],
                    end=[snap("X")] + logs))
    # panels of a cockpit through the queue
    s3 = [new("P", proc([at("cockpit", cockpit([at("panel", panel([h(rec("r1"))], "a"))], "C")), at("cockpit", cockpit([at("panel", panel([h(rec("r5"))], "a"))], "E"))], "P"))]
    cp = lambda c, n, r: ctl({"k": "add_panel", "c": c, "x": panel([h(rec(r))], n)})
    rp = lambda c, n: ctl({"k": "remove_panel", "c": c, "n": n})
    ws.append(world(s3, [(cp("C", "a", "r2"), 1), (cp("C", "b", "r3"), 1), (rp("C", "a"), 2), (rp("E", "a"), 1), (rp("nn", "a"), 1), (cp("nn", "b", "r4"), 1), (send(one(1)), 2), (process(), 2)], d, ["P15q"], end=[process(), snap("P")] + logs, cap=[]))
    return ws


# ---- drivers -----------------------------------------------------------------------
ALIVE = [step(2)]


def w16(tier):
    d = 5 if tier == "quick" else 6
    s = [drv(), new("Q", proc([h(rec("r1"))], "P")), put("obj", ("h", "h1"), "Q"), step(3)]
    st = lambda x: {"op": "dstrat", "h": "h1", "st": x}
    P, R = {"op": "dpause", "h": "h1"}, {"op": "dresume", "h": "h1"}
    look = [{"op": "log", "id": "r1"}]
    end = [step(3), {"op": "log", "id": "r1"}, dreq("te"), step(3)]
    return [sysworld(s, [P, R, send(one(1)), (step(), 4), (step(3), 1)], d, ["P16"], look=look, end=end),
            # a request does not wake a driver that is paused
            sysworld(s + [P, step(3)], [(P, 1), (R, 1), (send(one(1)), 2), (dreq("t1"), 1), (dreq("t2", True), 1), step()], d, ["P16"], look=look, end=end),
            sysworld(s, [P, R, (st({"k": "none"}), 1), (st({"k": "age", "age": 0, "dd": False}), 1), (st({"k": "all"}), 1), send(one(1, -5)), step(), (step(3), 1)], d - 1, ["P16"], look=look, end=end)]


def w17(tier):
    d = 5 if tier == "quick" else 6
    s = [drv("N"), new("Q", proc([h(rec("r1", "v1")), at("cockpit", cockpit([h(rec("r2", "v2"))], "K"))], "P"))]
    P = {"op": "dpause", "h": "h1"}
    ws = [sysworld(s, [(put("obj", ("h", "h1"), "Q"), 1), (put("probe", ("h", "h1"), probe("pr1", "q1", True, True)), 1), (put("probe", ("h", "h1"), probe("pr2", "q2", True, True)), 1), (dreq("t1"), 1), (dreq("t2", True), 1),
                       (send(one(1)), 3), step()], d, ["P17"], end=[step(3), step(3), step(3)]),
          sysworld(s + [put("obj", ("h", "h1"), "Q"), put("probe", ("h", "h1"), probe("pr1", "q1", True, True)), step(3)], [(P, 1), ({"op": "dresume", "h": "h1"}, 1), (dreq("t1", True), 1), (dreq("t2"), 1), (dreq("t3"), 1), (send(one(1)), 2), step()], d,
                   ["P17"], end=[step(3), step(3), step(3)]),
          sysworld(s + [put("obj", ("h", "h1"), "Q"), step(3)], [(dreq("t1"), 1), (dreq("t2", True), 1), (send(one(1)), 2), step(), ({"op": "ddrop", "h": "h1"}, 1)], d, ["P17"], end=[step(3)]),
          # those who ask stop waiting
          sysworld(s + [put("obj", ("h", "h1"), "Q"), put("probe", ("h", "h1"), probe("pr1", "q1", False, True)), step(3)],
                   [(dreq("t1"), 1), (dreq("t2"), 1), (cancel("t1"), 1), (cancel("t2"), 1), (send(one(1)), 1), step(), (step(3), 1)], d, ["P17"], end=[step(3), dreq("t3"), step(3), step(3), {"op": "log", "id": "r1"}])]
    return ws


def w18(tier):
    d = 5 if tier == "quick" else 6
    s = [drv(), put("probe", ("h", "h1"), probe("pr0", "q0"))]
    dr = lambda x: ({"op": "ddrop", "h": x}, 1)
    end = [step(3), step(3), {"op": "drel"}]
    ws = [sysworld(s, [dr("h1"), ({"op": "dclone", "h": "h1", "to": "h2"}, 1), dr("h2"), (dreq("t1"), 1), (dreq("t2", True), 1), ({"op": "dpause", "h": "h1"}, 1), step(), step(3)], d, ["P18"], end=end),
          sysworld(s, [dr("h1"), (dreq("t1"), 1), (dreq("t2"), 1), (cancel("t1"), 1), (cancel("t2"), 1), ({"op": "dpause", "h": "h1"}, 1), step(), step(3)], d, ["P18"], end=end),
          sysworld(s + [{"op": "dclone", "h": "h1", "to": "h2"}], [dr("h1"), dr("h2"), (put("probe", ("h", "h1"), probe("pr1", "q1")), 1), (put("probe", ("h", "h2"), probe("pr2", "q2")), 1), (dreq("t1", h="h2"), 1), (dreq("t2", True, "h2"), 1), step(), step(3)],
                   d, ["P18"], end=end)]
    return ws


def w19(tier):
    d = 5 if tier == "quick" else 6
    pr = lambda n, k: proc([h(rec("r%d" % k, "v"))], n, "t%d" % k)
    s = [new("M", mount([at("proc", pr("A", 1))], "M")), new("B", pr("B", 2)), new("C", pr("C", 3)), new("N", mount([at("proc", pr("E", 4))], "N"))]
    wh = [{"id": "B", "path": ["M", "B", "v"], "rec": "r2", "tx": "t2"}, {"id": "C", "path": ["M", "N", "C", "v"], "rec": "r3", "tx": "t3"}]
    amt = put("amount", ("id", "M"), "N", to="a1")
    PM = process(None, None, "M")
    end = [PM, snap("M")] + [{"op": "log", "id": "r%d" % k} for k in (1, 2, 3, 4)]
    ws = [sysworld(s, [(put("obj", ("id", "M"), "B"), 1), (amt, 1), (put("obj", ("a", "a1"), "C"), 1), ({"op": "adrop", "a": "a1"}, 1), (send(one(1), "t2"), 2), (send(one(1), "t3"), 2), (PM, 2)], d, ["P19"], look=[snap("M")], end=end, where=wh),
          sysworld(s + [amt], [(put("obj", ("a", "a1"), "B"), 1), (put("obj", ("a", "a1"), "C"), 1), ({"op": "aclone", "a": "a1", "to": "a2"}, 1), ({"op": "adrop", "a": "a1"}, 1), ({"op": "adrop", "a": "a2"}, 1),
                               (send(one(1), "t2"), 1), (send(one(2), "t3"), 2), (PM, 2)], d, ["P19"], look=[snap("M")], end=end, where=[dict(wh[0], path=["M", "N", "B", "v"]), wh[1]])]
    # one deeper: a mount attached below an attached mount
    s3 = s + [amt, new("O", mount([], "O"))]
    ws.append(sysworld(s3, [(put("amount", ("a", "a1"), "O", to="a3"), 1), (put("obj", ("a", "a3"), "C"), 1), (put("obj", ("a", "a1"), "B"), 1), ({"op": "adrop", "a": "a3"}, 1), (send(one(2), "t3"), 2), (PM, 2)], d, ["P19"], look=[snap("M")], end=end,
                       where=[dict(wh[0], path=["M", "N", "B", "v"]), dict(wh[1], path=["M", "N", "O", "C", "v"])]))
    return ws


def w20(tier):
    d = 3 if tier == "quick" else 4
    s = xpanel([at("counter", adp(ins("counter", "c"))), at("meter", adp(ins("meter", "m"))), at("gauge", gadp(ins("gauge", "g"))), h(gadp(ins("gauge", "gt", track=2, group=True))), at("histo", adp(ins("histo", "h"))), h(adp(ins("vmeter", "v"))),
                h(adp(ins("last", "l"))), h(adp(ins("disp", "d")))])
    a = [many(U64MAX), one(), val(i64(I64MAX)), val(i64(I64MIN)), val(u64(U64MAX)), val(chg(I64MAX)), val(chg(I64MIN)), val(INC), val(DEC), val(flt(1e300)), val(flt(-1e300)), val(flt(float("nan"))), val(flt(float("inf"))),
         val({"vt": "d", "x": {"secs": w(U64MAX), "nanos": 999999999}}), val({"vt": "tu", "x": w(U64MAX), "u": "s"}), val({"vt": "incby", "x": w(2**32 - 1)}), val(i64(-1))]
    ws = [world(s, [obs(o) for o in a] + [adv(6000)], d, ["P20"], look=[snap("X")])]
    ws.append(world(s, [obs(a[k]) for k in (0, 2, 3, 5, 6, 7, 8)] + [adv(61000)], d + 1, ["P20"], look=[snap("X")]))
    return ws


def w21(tier):
    d = 5 if tier == "quick" else 6
    outs = [[1, 0, 2, 0], [0, 3, 0, 4], [0, 0, 0, 7], [2, 2, 5, 0], [0, 0, 0, 0]]
    ws = []
    for o in (outs, [[0, 0, 0, 0], [0, 0, 0, 3], [90, 0, 9, 1], [0, 1, 0, 0]]):
        s = [drv(None, "full"), put("probe", ("h", "h1"), probe("pr", "q", outs=o)), step(2)]
        rq = [(dreq("t%d" % k), 1) for k in (1, 2)]
        ws.append(sysworld(s, rq + [step(), adv(60000), (adv(59999), 1), (adv(1), 1), ({"op": "dpause", "h": "h1"}, 1)], d, ["P21"], end=[dreq("te"), step(), step(2)], outs=o, single=True))
    # without metrics: nothing of the kind is shown
    ws.append(sysworld([drv("N"), put("probe", ("h", "h1"), probe("pr", "q", outs=outs))], [(dreq("t1"), 1), (dreq("t2", True), 1), step(), adv(60000)], d - 1, ["P21none"], end=[dreq("te"), step(), step(2)], outs=outs, single=True))
    return ws


def w22(tier):
    g = Gen("worlds/22")
    srcs = [i64(x) for x in (0, 1, -1, 5, I64MAX, I64MIN, I64MAX - 1)] + [u64(x) for x in (0, 1, I64MAX, I64MAX + 1, U64MAX)] + [flt(x) for x in (
        0.0, -0.0, 0.5, -0.5, 0.49999999999999994, 1.5, 2.5, -1.5, 1e300, -1e300, 9223372036854774784.0, 9223372036854775808.0, -9223372036854775808.0, 18446744073709549568.0, 18446744073709551616.0, float("inf"), float("-inf"), float("nan"), 4503599627370497.5)]
    srcs += [bool_(True), bool_(False), INC, DEC, chg(0), chg(I64MIN)] + [dur(x) for x in (0, 1, 999, 1000, 10**9 - 1, 10**18)] + [{"vt": "tu", "x": w(x), "u": u} for x in (0, 1, 999, 10**9, U64MAX) for u in ("ns", "us", "ms", "s")]
    for _ in range(20 if tier == "quick" else 400):
        srcs.append(g.src_extreme())
    ws = [world([adv(0)], [({"op": "conv", "v": x}, 1) for x in srcs], 1, ["P22"], cap=[])]
    # ways to send
    apis = []
    s = [new("P", proc([h(rec("r1"))], "P"))]
    from gens import sessions
    seen = set()
    for ses in sessions("C22", 60, 5):
        for o in ses:
            if o["op"] == "send" and (o["o"]["k"], o["api"]) not in seen and "v" not in o["o"]:
                seen.add((o["o"]["k"], o["api"]))
                apis.append(dict(o, tx="tx"))
            elif o["op"] == "send" and "v" in o["o"] and (o["o"]["v"]["vt"], o["api"]) not in seen and len(apis) < (26 if tier == "quick" else 60):
                seen.add((o["o"]["v"]["vt"], o["api"]))
                apis.append(dict(o, tx="tx"))
    ws.append(world(s, apis + [{"op": "measure", "tx": "tx", "l": 3, "from": -1500}, {"op": "measure", "tx": "tx", "l": 3, "from": 0}, adv(7), process()], 3, ["P22"], end=[process(), {"op": "log", "id": "r1"}], cap=[]))
    return ws


def w23(tier):
    d = 4 if tier == "quick" else 5
    tx = dict(ti=["T"], de=["D"])
    alt = dict(alt=[{"k": "ren", "s": "other"}])
    rd = lambda *ids: [x for i in ids for x in ({"op": "read", "id": i}, snap(i, True))]
    gset = lambda v: {"op": "gset", "id": "G", "v": v}
    ws = [world([new("C", adp(ins("counter", "c", pre=[w(5), w(1)], **tx))), new("G", gadp(ins("gauge", "g", ti=["T"]))), new("F", adp(ins("flag", "f", init=[True], **alt)))],
                [obs(one(), "C"), obs(many(U64MAX - 7), "C"), obs(val(i64(7)), "G"), obs(val(INC), "G"), gset(chg(-3)), gset(i64(2)), gset(bool_(True)), obs(val(bool_(False)), "F"), obs(val(bool_(True)), "F")], d, ["P23"], look=rd("C", "G", "F")),
          world([new("S", adp(ins("stair", "s", dur=[2000], inv=True, **alt))), new("O", adp(ins("occ", "o", dur=[2000], inv=True, **tx))), new("N", adp(ins("nonocc", "n", dur=[2000], inv=True, **alt))),
                 new("L", adp(ins("last", "l", mkzero=True, de=["D"])))],
                [obs(one(), i) for i in "SONL"] + [adv(1), adv(1999)], d, ["P23"], look=rd(*"SONL")),
          world([new("S", adp(ins("stair", "s"))), new("O", adp(ins("occ", "o"))), new("N", adp(ins("nonocc", "n"))), new("D", adp(ins("disp", "d", dur=[2000], rv=[{"t": "s", "x": "r"}]))), new("E", adp(ins("disp", "e")))],
                [obs(one(), i) for i in "SON"] + [obs(val(i64(3)), i) for i in "DE"] + [adv(1), adv(59999)], d, ["P23"], look=rd(*"SONDE"))]
    # renaming
    cs = lambda: [h(adp(ins("counter", "c")))]
    name = lambda n: {"op": "direct", "id": "X", "c": {"k": "set_name", "n": n}}
    nth = lambda j, n: {"op": "direct", "id": "X", "c": {"k": "nth", "j": j, "c": {"k": "set_name", "n": n}}}
    ws.append(world([new("X", cockpit([at("panel", panel(cs(), "a")), at("panel", panel(cs(), "b"))], "x"))],
                    [name("x"), name("y"), nth(1, "p"), nth(1, "q"), nth(2, "r"), obs(one()), adv(1)], d, ["P23n"], look=[snap("X"), {"op": "names", "id": "X"}]))
    return ws


WORLDS = {"C%02d" % k: globals()["w%02d" % k] for k in range(1, 24)}


# ---- liveness: what happens in the end, under fair scheduling (LiveSys) -------------
def lworld(setup, alpha, loop=0):
    return {"setup": list(setup), "alpha": [a if isinstance(a, tuple) else (a, 1) for a in alpha], "loop": loop}


def l02(tier):
    bs = lambda b, o: {"op": "bsend", "b": b, "tx": "tx", "o": o, "api": "observed"}
    n = 3 if tier == "quick" else 5
    return [lworld(stream_setup(c, True), [bs("b%d" % k, one(k)) for k in range(1, n + 1)] + [({"op": "drop", "id": "P"}, 1), (send(one(9)), 1)][:2 if c == 1 else 1], loop) for c in (1, 2) for loop in (1, 2)]


def l16(tier):
    s = [drv(), new("Q", proc([h(rec("r1"))], "P")), put("obj", ("h", "h1"), "Q")]
    P, R = {"op": "dpause", "h": "h1"}, {"op": "dresume", "h": "h1"}
    k = 2 if tier == "quick" else 3
    st = lambda x: {"op": "dstrat", "h": "h1", "st": x}
    return [lworld(s, [(P, k), (R, k), (send(one(1)), 2), (dreq("t1"), 1)]), lworld(s, [(P, 1), (R, 1), (st({"k": "none"}), 1), (st({"k": "all"}), 1), (send(one(1)), k)])]


def l17(tier):
    s = [drv("N"), new("Q", proc([h(rec("r1", "v1"))], "P")), put("obj", ("h", "h1"), "Q")]
    P, R = {"op": "dpause", "h": "h1"}, {"op": "dresume", "h": "h1"}
    ws = [lworld(s, [dreq("t1"), dreq("t2", True), dreq("t3"), cancel("t3"), P, put("probe", ("h", "h1"), probe("pr1", "q1", True, True)), ({"op": "ddrop", "h": "h1"}, 1)])]
    if tier != "quick":
        ws.append(lworld(s + [put("probe", ("h", "h1"), probe("pr1", "q1", True, True))], [dreq("t1"), dreq("t2", True), cancel("t1"), (P, 1), (R, 1), (send(one(1)), 1), ({"op": "ddrop", "h": "h1"}, 1)]))
    return ws


def l18(tier):
    dr = lambda x: ({"op": "ddrop", "h": x}, 1)
    cl = lambda x, y: {"op": "dclone", "h": x, "to": y}
    ws = [lworld([drv(), put("probe", ("h", "h1"), probe("pr0", "q0"))], [dr("h1"), cl("h1", "h2"), dr("h2"), dreq("t1"), dreq("t2", True), {"op": "dpause", "h": "h1"}, put("probe", ("h", "h1"), probe("pr1", "q1", True, True))]),
          # a driver whose last handle is attached to another one
          lworld([drv(), drv(id="D2", h="h9"), put("probe", ("h", "h9"), probe("pr2", "q2"))], [put("drv", ("h", "h1"), "h9", **{"as": "snap"}), dr("h1"), dr("h9"), dreq("t1"), {"op": "dpause", "h": "h9"}])]
    if tier != "quick":
        ws.append(lworld([drv(), put("probe", ("h", "h1"), probe("pr0", "q0", False, True))], [dr("h1"), cl("h1", "h2"), cl("h2", "h3"), dr("h2"), dr("h3"), dreq("t1", True, "h1"), dreq("t2", True, "h2"), dreq("t3", h="h3"), cancel("t3"), {"op": "dpause", "h": "h1"}]))
    return ws


def l19(tier):
    pr = lambda n, k: proc([h(rec("r%d" % k, "v"))], n, "t%d" % k)
    s = [drv(), new("M", mount([at("proc", pr("A", 1))], "M")), put("amount", ("h", "h1"), "M", to="a1"), new("B", pr("B", 2))]
    ws = [lworld(s, [put("obj", ("a", "a1"), "B"), {"op": "aclone", "a": "a1", "to": "a2"}, {"op": "adrop", "a": "a1"}, {"op": "dpause", "h": "h1"}, {"op": "dresume", "h": "h1"}, (send(one(1), "t2"), 1), {"op": "ddrop", "h": "h1"}])]
    if tier != "quick":
        ws.append(lworld(s + [new("O", mount([], "O"))], [put("amount", ("a", "a1"), "O", to="a3"), put("obj", ("a", "a3"), "B"), {"op": "adrop", "a": "a1"}, {"op": "adrop", "a": "a3"}, {"op": "dpause", "h": "h1"}, (send(one(1), "t2"), 2), {"op": "ddrop", "h": "h1"}]))
    return ws


LIVE = {"C02": (["NobodyWaits"], l02), "C16": (["Processed", "Answered", "Rests"], l16), "C17": (["Answered", "Released", "Rests"], l17),
        "C18": (["Ends", "Released", "AllReleased", "Answered", "Rests"], l18), "C19": (["Placed", "Processed", "Ends"], l19)}
