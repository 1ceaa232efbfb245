"""Generators of operation sequences with several threads: drivers, attached
mounts, waiting senders, snapshot requests."""
from gens import *


class World:
    """what a session has built so far, as far as the generator must know it"""

    def __init__(self, g, met="none", n=True):
        self.g, self.met = g, met
        self.s = [reset(n)]
        self.drvs = {}        # id -> dict(handles, auto)
        self.hs = {}          # handle -> driver
        self.free = []        # objects that are not attached: (id, kind)
        self.txs = []
        self.recs = []
        self.cells = []
        self.probes = []
        self.atts = {}        # handle of an attached mount -> channel
        self.tix = 0
        self.asked = []
        self.root = None      # an object that stays free
        self.roots = set()    # free mounts with attached mounts below: only drivers may take them
        self.t = 0
        self.text = 0.3       # how often there are titles and descriptions

    # -- building --
    def driver(self, auto=False, met=None, named=0.5):
        g = self.g
        met = self.met if met is None else met
        i, h = g.name("D"), g.name("h")
        tx = g.texts(self.text)
        st = g.ch([{"k": "all"}, {"k": "all"}, {"k": "default"}, {"k": "none"}, {"k": "age", "age": 1000, "dd": g.p(0.5)}]) if g.p(0.5) else {"k": "all"}
        x = {"n": [g.name("N")] if g.p(named) else [], **tx, "st": st, "m": met != "none", "mx": met, "auto": auto, "via": g.ch(["new", "builder", "builder2"])}
        if met != "none" and not x["n"] and not x["ti"] and not x["de"] and st["k"] == "default" and g.p(0.5):
            x["via"] = "default"
        self.s.append({"op": "dnew", "id": i, "h": h, "x": x})
        self.drvs[i] = dict(auto=auto)
        self.hs[h] = i
        return i, h

    def small_proc(self, cap=0.1):
        g = self.g
        items = []
        for _ in range(g.r.randint(1, 3)):
            k = g.ch(["rec", "counter", "counter", "cockpit"])
            if k == "rec":
                x = {"slot": "handler", "x": g.rec(), "b": False}
            elif k == "counter":
                x = {"slot": "handler", "x": g.adp(g.instr("counter"), g.wide_filt()), "b": False}
            else:
                x = {"slot": "cockpit", "b": False, "x": {"k": "cockpit", "n": [g.name("c")] if g.p(0.6) else [], **(g.texts(self.text) if self.text > 0.5 else {"ti": [], "de": []}), "limit": [], "show": True,
                     "items": [{"slot": "handler", "x": g.rec() if g.p(0.5) else g.adp(g.instr("counter"), g.wide_filt()), "b": False}]}}
            items.append(x)
        if g.p(0.2):
            items.append({"slot": "snap", "x": g.snapsh(), "b": False})
        return {"k": "proc", "n": [g.name("P")] if g.p(0.6) else [], "limit": [], "show": True, "cap": [g.r.choice([0, 1, 2, 3, 4, 5])] if g.p(cap) else [], "block": False, "tx": g.name("tx"), "items": items}

    def obj(self, kind=None):
        g = self.g
        kind = kind or g.ch(["proc", "proc", "mount"])
        i = g.name("o")
        d = self.small_proc() if kind == "proc" else {"k": "mount", "n": [g.name("M")] if g.p(0.6) else [], "limit": [g.ch([1000, 60000])] if g.p(0.15) else [],
                                                      "items": [{"slot": "proc", "x": self.small_proc(), "b": False} for _ in range(g.r.randint(0, 2))]}
        self.s.append(new(i, d))
        self.note(d)
        return i, kind

    def note(self, d):
        self.txs += txs_of(d)
        self.recs += recs_of(d)
        self.cells += cells_of(d)

    def probe_def(self, gates=0.0, outs=0.0):
        g = self.g
        x = {"k": "probe", "id": g.name("pr"), "n": g.name("Q"), "gp": g.p(gates), "gs": g.p(gates),
             "outs": [[g.ch([0, 1, 5, 90]), g.ch([0, 0, 0, 2]), g.ch([0, 1, 7]), g.ch([0, 3, 50])] for _ in range(g.r.randint(1, 6))] if g.p(outs) else []}
        return x

    def target(self, deep=True):
        """where to put something"""
        g = self.g
        ts = [{"h": h} for h in self.hs] * 2
        if deep:
            ts += [{"a": a} for a in self.atts]
            ts += [{"id": i} for i, k in self.free if k == "mount"]
        return g.ch(ts) if ts else None

    def put(self, what=None, deep=True, gates=0.0, outs=0.0):
        g = self.g
        t = self.target(deep)
        if t is None:
            return
        what = what or g.ch(["probe", "obj", "obj", "snap", "amount"])
        if what == "probe" and any(d["auto"] for d in self.drvs.values()) and ("h" not in t or self.drvs[self.hs[t["h"]]]["auto"]):
            # how many passes a driver makes that runs by itself is open
            what = "obj"
        op = {"op": "put", "what": what, "dyn": g.p(0.5), **t}
        if what == "probe":
            # gates only where the specification has them: directly under a driver
            auto = "h" not in t or self.drvs[self.hs[t["h"]]]["auto"]
            op["x"] = self.probe_def(0.0 if auto else gates, 0.0 if "h" not in t else outs)
            self.probes.append(op["x"]["id"])
        elif what == "snap":
            op["x"] = g.snapsh()
            self.cells += cells_of(op["x"])
        else:
            cand = [f for f in self.free if f[0] not in (t.get("id"), self.root) and (what == "obj" or f[1] == "mount") and (f[0] not in self.roots or "h" in t)]
            if not cand or g.p(0.3):
                cand = [self.obj("mount" if what == "amount" else None)]
            else:
                self.free.remove(cand[-1])
            op["child"] = cand[-1][0]
            if "id" in t and (what == "amount" or op["child"] in self.roots):
                self.roots.add(t["id"])
            if what == "amount":
                op["to"] = g.name("a")
                self.atts[op["to"]] = op["to"]
        self.s.append(op)

    # -- using --
    def send(self, k=1):
        for _ in range(k):
            if self.txs:
                self.s.append(send(self.g.ch(self.txs), self.g.obs(ts=self.g.ch([0, 0, 0, -5, -2000, -40000]), kinds="n11v")))

    def step(self, d, times=1):
        self.s.append({"op": "dstep", "id": d, "times": times})

    def gated(self):
        return [d for d in self.drvs if not self.drvs[d]["auto"]]

    def req(self, sync=None):
        hs = [h for h in self.hs if not self.drvs[self.hs[h]]["auto"]]
        if not hs:
            return
        self.tix += 1
        sync = self.g.p(0.4) if sync is None else sync
        self.s.append({"op": "dreq", "h": self.g.ch(hs), "t": "t%02d" % self.tix, "sync": sync, "d": self.g.p(0.3)})
        if not sync:
            self.asked.append("t%02d" % self.tix)

    def cancel(self):
        """someone stops waiting for an answer (that may have been given)"""
        if self.asked:
            t = self.g.ch(self.asked[-3:])
            self.asked.remove(t)
            self.s.append({"op": "dcancel", "t": t})

    def look(self):
        self.s += [{"op": "plog", "id": p} for p in self.probes] + [{"op": "log", "id": r} for r in self.recs]


def close(w, quick=False):
    """everything comes to an end: the rest is processed, answered, released"""
    g = w.g
    for d in w.gated():
        hs = [h for h in w.hs if w.hs[h] == d]
        if hs:
            w.s.append({"op": "dresume", "h": hs[0]})
            w.s.append({"op": "dreq", "h": hs[0], "t": "tz%s" % d, "sync": False, "d": True})
        for _ in range(g.r.randint(2, 6) if quick else 12):
            w.step(d, g.r.randint(1, 3))
    w.look()
    order = list(w.hs)
    g.r.shuffle(order)
    for h in order:
        w.s.append({"op": "ddrop", "h": h})
        for d in w.gated():
            if g.p(0.7):
                w.step(d, g.r.randint(1, 2))
    for d in w.gated():
        w.step(d, 8)
        w.step(d, 1)
    w.s.append({"op": "drel"})
    w.look()
    if w.txs:
        for tx in w.txs[:3]:
            w.s.append({"op": "q", "tx": tx})
            w.s.append(send(tx, g.obs()))
    return w.s


def act(w, weights, gates=0.0, outs=0.0, deep=True):
    g = w.g
    ks = list(weights)
    k = g.r.choices(ks, [weights[x] for x in ks])[0]
    if k == "put":
        w.put(deep=deep, gates=gates, outs=outs)
    elif k == "probe":
        w.put("probe", deep=deep, gates=gates, outs=outs)
    elif k == "send":
        w.send(g.r.choice([1, 1, 2, 4]))
    elif k == "burst":
        if w.txs:
            tx = g.ch(w.txs)
            for _ in range(g.ch([30, 101, 105])):
                w.s.append(send(tx, g.obs(ts=0, kinds="1")))
    elif k == "step":
        for d in w.gated():
            if g.p(0.7):
                w.step(d, g.ch([1, 1, 1, 2, 3]))
    elif k == "pause" and w.hs:
        w.s.append({"op": "dpause", "h": g.ch(w.hs)})
    elif k == "resume" and w.hs:
        w.s.append({"op": "dresume", "h": g.ch(w.hs)})
    elif k == "strat" and w.hs:
        w.s.append({"op": "dstrat", "h": g.ch(w.hs), "st": strat(g)})
    elif k == "req":
        w.req()
    elif k == "cancel":
        w.cancel()
    elif k == "clone" and w.hs:
        h = g.ch(w.hs)
        n = g.name("h")
        w.s.append({"op": "dclone", "h": h, "to": n})
        w.hs[n] = w.hs[h]
    elif k == "drop" and len(w.hs) > (0 if g.p(0.1) else 1):
        h = g.ch(w.hs)
        w.s.append({"op": "ddrop", "h": h})
        del w.hs[h]
    elif k == "adv":
        w.s.append(adv(g.ch([1, 10, 1000, 5000, 61000])))
    elif k == "look":
        w.look()
    elif k == "ctl" and w.txs:
        x = g.rec()
        w.recs.append(x["id"])
        w.s.append({"op": "ctl", "tx": g.ch(w.txs), "c": {"k": "add_handler", "x": x}})
    elif k == "droptx" and w.txs and g.p(0.5):
        w.s.append({"op": "droptx", "tx": w.txs.pop(g.r.randrange(len(w.txs)))})
    elif k == "cell" and w.cells:
        w.s.append({"op": "cell", "id": g.ch(w.cells), "items": g.items(0, nmax=2)})
    elif k == "aclone" and w.atts:
        n = g.name("a")
        a = g.ch(w.atts)
        w.s.append({"op": "aclone", "a": a, "to": n})
        w.atts[n] = w.atts[a]
    elif k == "adrop" and w.atts:
        a = g.ch(w.atts)
        w.s.append({"op": "adrop", "a": a})
        del w.atts[a]


def s16(g):
    w = World(g)
    w.driver()
    for _ in range(g.r.randint(0, 2)):
        w.put("obj", deep=False)
    w.put("probe", deep=False, gates=0.3)
    for _ in range(g.r.randint(10, 35)):
        act(w, {"send": 4, "step": 5, "pause": 2, "resume": 2, "strat": 2, "req": 1, "put": 1, "adv": 1, "look": 1, "clone": 0.3, "burst": 0.1, "ctl": 0.5}, gates=0.3, deep=False)
    return close(w)


def s17(g):
    w = World(g, met=g.ch(["none", "none", "wild"]))
    w.driver()
    for _ in range(g.r.randint(1, 3)):
        w.put("obj", deep=False)
    if g.p(0.6):
        w.put("probe", deep=False, gates=0.6)
    cancel = g.ch([0, 0, 1.5])
    for _ in range(g.r.randint(10, 30)):
        act(w, {"send": 4, "step": 5, "pause": 0.7, "resume": 0.7, "req": 4, "put": 1.5, "adv": 0.5, "cell": 1, "strat": 0.3, "burst": 0.15, "clone": 0.3, "drop": 0.3, "ctl": 0.4, "cancel": cancel}, gates=0.5, deep=g.p(0.3))
    return close(w)


def s18(g):
    w = World(g)
    for _ in range(g.ch([1, 1, 2])):
        w.driver()
    w.put("probe", deep=False, gates=0.3)
    cancel = g.ch([0, 0, 1])
    for _ in range(g.r.randint(8, 30)):
        act(w, {"send": 2, "step": 5, "pause": 1.2, "resume": 0.8, "req": 2, "put": 2, "probe": 1, "clone": 2.5, "drop": 2.5, "droptx": 1, "adv": 0.4, "look": 0.5, "adrop": 0.4, "aclone": 0.3, "cancel": cancel}, gates=0.3)
    if g.p(0.4):
        # the end comes while there are requests and commands
        for d in w.gated():
            hs = [h for h in w.hs if w.hs[h] == d]
            if hs:
                if g.p(0.5):
                    w.s.append({"op": "dpause", "h": hs[0]})
                    w.step(d, 1)
                for _ in range(g.r.randint(0, 3)):
                    w.req(sync=False)
                if g.p(0.5):
                    w.put("probe", deep=False)
        for h in list(w.hs):
            w.s.append({"op": "ddrop", "h": h})
            del w.hs[h]
    return close(w, True)


def s19(g):
    """attached mounts, drivers within other hierarchies"""
    w = World(g)
    w.driver()
    if g.p(0.5):
        w.driver(auto=True, met="none")
    for _ in range(g.r.randint(12, 40)):
        act(w, {"send": 4, "step": 4, "put": 6, "probe": 1, "req": 2, "adv": 0.5, "look": 0.5, "adrop": 0.7, "aclone": 0.5, "pause": 0.15, "resume": 0.3, "ctl": 0.4}, deep=True)
        if g.p(0.06):
            # an auto driver becomes part of another hierarchy
            autos = [h for h in w.hs if w.drvs[w.hs[h]]["auto"]]
            others = [h for h in w.hs if not w.drvs[w.hs[h]]["auto"]]
            if autos and others:
                h = g.ch(autos)
                ts = [{"h": x} for x in others]
                # only below gated drivers or free mounts
                w.s.append({"op": "put", "what": "drv", "child": h, "as": g.ch(["proc", "proc", "snap"]), "dyn": g.p(0.5), **g.ch(ts)})
                d = w.hs.pop(h)
                if g.p(0.5):
                    # another handle stays
                    k = w.s.pop()
                    n = g.name("h")
                    w.s.append({"op": "dclone", "h": h, "to": n})
                    w.hs[n] = d
                    w.s.append(k)
    return close(w)


def s19m(g):
    """the same without a driver: attached mounts below a mount that is processed directly"""
    w = World(g)
    i, _ = w.obj("mount")
    w.free.append((i, "mount"))
    w.root = i
    for _ in range(g.r.randint(10, 35)):
        x = g.r.random()
        if x < 0.35:
            w.put(g.ch(["obj", "snap", "amount", "amount"]))
        elif x < 0.4 and w.atts:
            act(w, {"aclone": 1, "adrop": 2})
        elif x < 0.65:
            w.send(g.r.choice([1, 2, 3]))
        elif x < 0.9:
            w.s.append(process(i, strat(g), g.ch([None, None, 1, 3])))
            w.s.append(snap(i, g.p(0.2)))
        else:
            w.s.append(adv(g.ch([1, 1000])))
    w.s.append(process(i))
    w.s.append(process(i))
    w.s.append(snap(i, True))
    w.look()
    return w.s


def s21(g):
    w = World(g, met=g.ch(["full", "full", "full", "none"]))
    w.driver()
    for _ in range(g.r.randint(0, 2)):
        w.put("obj", deep=False)
    if g.p(0.6):
        w.put("probe", deep=False, outs=0.8)
    for _ in range(g.r.randint(10, 35)):
        act(w, {"send": 4, "step": 6, "pause": 0.3, "resume": 0.6, "strat": 1, "req": 4, "put": 0.6, "probe": 0.5, "adv": 4, "burst": 0.1, "clone": 0.2}, outs=0.7, deep=False)
    return close(w, True)


def s20(g):
    """extreme observations do not stop a driver"""
    w = World(g, met="wild", n=False)
    i, h = w.driver()
    d = g.proc(depth=1, cap=0.1)
    o = g.name("o")
    w.s.append(new(o, d))
    w.note(d)
    w.s.append({"op": "put", "what": "obj", "child": o, "h": h, "dyn": False})
    for _ in range(g.r.randint(10, 30)):
        x = g.r.random()
        if x < 0.5:
            w.s.append(send(d["tx"], g.obs(src=g.src_extreme, ts=g.ch([0, 0, -10**6, 10**6, 15 * 10**8, -15 * 10**8]), cmax=g.ch([9, U64MAX]))))
        elif x < 0.8:
            w.step(i, 1)
        elif x < 0.9:
            w.req()
        else:
            w.s.append(adv(g.ch([0, 1, 1000, 100000, 10**7])))
    return close(w, True)


def s02(g):
    """senders that wait for room"""
    s = [reset(True)]
    pr = g.proc(cap=0.0, items=[{"slot": "handler", "x": g.rec(), "b": False}])
    # (without any room: messages are handed over directly)
    pr["cap"] = [g.ch([0, 1, 1, 2, 2, 3, 4])]
    pr["block"] = g.p(0.8)
    s.append(new("P", pr))
    txs = [pr["tx"]]
    recs = recs_of(pr)
    waiting = 0       # at most this many may be waiting
    est = 0
    gone = False
    for _ in range(g.r.randint(8, 30)):
        x = g.r.random()
        if x < 0.45 and waiting < 3 and txs:
            if g.p(0.12):
                r = g.rec()
                recs.append(r["id"])
                s.append({"op": "bsend", "b": g.name("b"), "tx": g.ch(txs), "c": {"k": "add_handler", "x": r}})
            else:
                s.append({"op": "bsend", "b": g.name("b"), "tx": g.ch(txs), "o": g.obs(), "api": g.ch(["transmit", "observed"])})
            est += 1
            if est > pr["cap"][0]:
                waiting += 1
        elif x < 0.5 and txs:
            n = g.name("txc")
            s.append({"op": "clone", "tx": g.ch(txs), "to": n})
            txs.append(n)
        elif x < 0.75 and not gone:
            m = g.ch([0, 1, 1, 2, 3, None])
            several = waiting > 1
            s.append(process("P", strat(g) if g.p(0.2) else None, m))
            # (a pass without limit may or may not see those that enter meanwhile)
            most = pr["cap"][0] or 3
            est = max(0, est - (most if m is None else min(m, most)))
            waiting = max(0, est - pr["cap"][0])
            s.append({"op": "bstat"})
            if several:
                # keeps the number of possible states small
                s.append({"op": "log", "id": recs[0]})
        elif x < 0.9 and txs:
            s.append({"op": "q", "tx": g.ch(txs)})
        elif x < 0.95:
            s.append({"op": "log", "id": g.ch(recs)})
        elif x < 0.98:
            # time passes: those who wait go on waiting
            s.append(adv(g.ch([1, 20, 1000, 61000, 3600000, 90000000])))
            s.append({"op": "bstat"})
        elif x < 0.99 and not gone:
            s.append({"op": "drop", "id": "P"})
            gone = True
            est, waiting = 0, -100
            s.append({"op": "bstat"})
    if not gone:
        s.append({"op": "q", "tx": txs[0]})
        if g.p(0.3):
            s.append({"op": "drop", "id": "P"})
            s.append({"op": "bstat"})
            s.append({"op": "bsend", "b": g.name("b"), "tx": txs[0], "o": g.obs(), "api": "transmit"})
        else:
            for _ in range(2):
                s.append(process("P"))
                s.append({"op": "bstat"})
            s.append({"op": "q", "tx": txs[0]})
    return s + [{"op": "log", "id": r} for r in recs]


def s01(g):
    """sends between the steps of a pass; several drivers and processors"""
    w = World(g)
    w.driver()
    w.put("obj", deep=False)
    w.put("probe", deep=False, gates=0.9)
    w.put("obj", deep=False)
    for _ in range(g.r.randint(10, 35)):
        act(w, {"send": 6, "step": 5, "ctl": 1, "droptx": 0.4, "put": 0.4, "pause": 0.2, "resume": 0.4, "look": 1, "burst": 0.05}, gates=0.6, deep=False)
    return close(w)


def big(g):
    """more messages than a driver takes in one pass, and again and again"""
    w = World(g, met=g.ch(["none", "none", "wild"]) if g.p(0.5) else "none")
    w.driver()
    w.put("obj", deep=False)
    w.put("obj", deep=False)
    for _ in range(g.r.randint(2, 4)):
        act(w, {"send": 1, "step": 1, "put": 0.5, "req": 0.5}, deep=False)
    for _ in range(g.ch([1, 1, 2])):
        tx = g.ch(w.txs) if w.txs else None
        if tx:
            w.s.append(burst(tx, g.ch([999, 1000, 1001, 1100, 1101, 2000, 2100]), g.label()))
        for _ in range(g.r.randint(2, 7)):
            act(w, {"send": 2, "step": 6, "pause": 0.4, "resume": 0.5, "strat": 0.5, "req": 3, "adv": 0.5, "ctl": 0.4, "droptx": 0.1}, deep=False)
    return close(w)


def many(g):
    """many handles, requests, commands and levels at once"""
    w = World(g)
    w.driver()
    w.put("obj", deep=False)
    d, h0 = w.gated()[0], list(w.hs)[0]
    for _ in range(g.ch([5, 40])):
        h = g.name("h")
        w.s.append({"op": "dclone", "h": g.ch(w.hs), "to": h})
        w.hs[h] = d
    # a chain of attached mounts
    t = {"h": h0}
    for j in range(g.ch([1, 6, 12])):
        i, a = g.name("o"), g.name("a")
        w.s.append(new(i, {"k": "mount", "n": [g.name("M")] if g.p(0.7) else [], "limit": [], "items": []}))
        if "h" in t:
            # a mount that is processed by the driver
            r, b = g.name("o"), g.name("a")
            w.s.append(new(r, {"k": "mount", "n": [g.name("M")], "limit": [], "items": []}))
            w.s.append({"op": "put", "what": "amount", "dyn": False, "id": r, "child": i, "to": a})
            w.s.append({"op": "put", "what": "obj", "dyn": False, "h": h0, "child": r})
        else:
            w.s.append({"op": "put", "what": "amount", "dyn": False, **t, "child": i, "to": a})
        w.atts[a] = a
        t = {"a": a}
    deep = t
    for _ in range(3):
        i, x = w.obj("proc")
        w.s.append({"op": "put", "what": "obj", "dyn": g.p(0.5), **deep, "child": i})
    w.send(2)
    if g.p(0.5):
        for a in list(w.atts):
            w.s.append({"op": "adrop", "a": a})
            del w.atts[a]
    if g.p(0.5):
        w.step(d, 14)
    for _ in range(g.ch([3, 25, 60])):
        x = g.r.random()
        if x < 0.5:
            w.req(sync=False)
        elif x < 0.6:
            w.s.append({"op": g.ch(["dpause", "dresume"]), "h": g.ch(w.hs)})
        elif x < 0.7:
            w.s.append({"op": "dstrat", "h": g.ch(w.hs), "st": strat(g)})
        else:
            w.put("snap", deep=False)
    w.send(3)
    w.s.append({"op": "dresume", "h": h0})
    w.step(d, g.ch([3, 70]))
    hs = list(w.hs)
    g.r.shuffle(hs)
    for h in hs[:-1]:
        w.s.append({"op": "ddrop", "h": h})
        del w.hs[h]
        if g.p(0.1):
            w.step(d, 1)
    w.send(1)
    return close(w)


def s13(g):
    """snapshots of hierarchies with driver threads in them, with and without the descriptions"""
    w = World(g)
    w.text = 0.8
    w.driver(named=0.7)
    for _ in range(g.r.randint(1, 3)):
        w.put(g.ch(["obj", "obj", "snap"]), deep=False)
    for _ in range(g.ch([0, 1, 1, 2])):
        _, h = w.driver(auto=True, met="none", named=0.7)
        for _ in range(g.r.randint(0, 2)):
            w.s.append({"op": "put", "what": "snap", "x": g.snapsh(), "dyn": g.p(0.5), "h": h})
        others = [x for x in w.hs if not w.drvs[w.hs[x]]["auto"]]
        w.s.append({"op": "put", "what": "drv", "child": h, "as": g.ch(["proc", "snap"]), "dyn": g.p(0.5), "h": g.ch(others)})
        w.hs.pop(h)
    for _ in range(g.r.randint(8, 20)):
        act(w, {"send": 2, "step": 4, "req": 5, "put": 1, "adv": 1, "cell": 2, "ctl": 0.2}, deep=True)
    return close(w)


SYS = {"C01": [s01], "C02": [s02], "C13": [s13], "C16": [s16], "C17": [s17], "C18": [s18], "C19": [s19, s19m], "C20": [s20], "C21": [s21]}


MANY = {"C16", "C17", "C18", "C19"}
BIG = {"C01", "C16", "C17", "C21"}


def sys_sessions(prop, n, seed):
    fs = SYS.get(prop, [])
    if not fs:
        return []
    k = max(2, n // 200) if prop in BIG and n > 20 else 0
    fs = fs * 8 + [many] * len(fs) if prop in MANY else fs
    return [big(Gen("big/%s/%s/%d" % (prop, seed, j))) for j in range(k)] + [fs[j % len(fs)](Gen("sys/%s/%s/%d" % (prop, seed, j))) for j in range(n - k)]
