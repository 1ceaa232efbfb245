"""Generators of operation sequences. Each profile concentrates on the part
of the behaviour one property is about. Everything is drawn from a seeded
generator; a session is a list of operations starting with "reset"."""
import random
from mxcore import w, fb

I64MAX, I64MIN, U64MAX = 2**63 - 1, -2**63, 2**64 - 1
UMAX = w(U64MAX)
LABELS = range(6)


def reset(n=False):
    return {"op": "reset", "n": n}


class Gen:
    def __init__(self, seed):
        self.r = random.Random(seed)
        self.n = 0
        self.pool = None

    # ---- basics ----
    def ch(self, xs):
        return self.r.choice(list(xs))

    def p(self, x):
        return self.r.random() < x

    def name(self, p="n"):
        self.n += 1
        return "%s%d" % (p, self.n)

    def dname(self, p="n"):
        """a name that is shown: different ones, or few that are shared and are prefixes of each other"""
        return self.r.choice(self.pool) if self.pool and self.r.random() < 0.7 else self.name(p)

    def label(self):
        return self.r.randrange(6)

    def labels(self, n):
        return [self.label() for _ in range(n)]

    # ---- values ----
    def small(self):
        return self.r.randint(-20, 100)

    def int_in(self, lo, hi):
        x = self.r.random()
        if x < 0.25:
            return lo + self.r.choice([0, 0, 1, 2]) if hi - lo > 4 else lo
        if x < 0.5:
            return hi - self.r.choice([0, 0, 1, 2]) if hi - lo > 4 else hi
        if x < 0.75:
            return max(lo, min(hi, self.r.choice([0, 1, -1, 2, 10, 127, 128, 255, 256, 2**31, 2**32, 2**53, 2**53 + 1, 2**62, 2**63 - 1, 2**63])))
        return self.r.randint(lo, hi)

    def float_any(self):
        return self.r.choice([0.0, -0.0, 0.5, -0.5, 0.49999999999999994, 1.5, 2.5, -1.5, -2.5, 0.1, 1e-300, 1e300, -1e300, 4503599627370495.5, 4503599627370496.5, 9007199254740991.0,
                              9007199254740993.0, 9.2233720368547e18, 9223372036854774784.0, 9223372036854775808.0, 9223372036854777856.0, -9223372036854775808.0, -9223372036854777856.0,
                              18446744073709549568.0, 18446744073709551616.0, 18446744073709555712.0, float("inf"), float("-inf"), float("nan"), 123.456, -123.456,
                              self.r.uniform(-1000, 1000), self.r.uniform(-1e19, 1e19)])

    def unit(self):
        return self.ch(["ns", "us", "ms", "s"])

    def src_extreme(self):
        k = self.ch(["i8", "i16", "i32", "i64", "i64", "u8", "u16", "u32", "u64", "u64", "us", "f", "f", "b", "d", "tu", "tu", "td", "inc", "dec", "incby", "decby", "chg", "chg"])
        return self.src_kind(k)

    def src_kind(self, k):
        rng = {"i8": (-128, 127), "i16": (-2**15, 2**15 - 1), "i32": (-2**31, 2**31 - 1), "i64": (I64MIN, I64MAX), "u8": (0, 255), "u16": (0, 2**16 - 1),
               "u32": (0, 2**32 - 1), "u64": (0, U64MAX), "us": (0, U64MAX), "incby": (0, 2**32 - 1), "decby": (0, 2**32 - 1), "chg": (I64MIN, I64MAX)}
        if k in rng:
            return {"vt": k, "x": w(self.int_in(*rng[k]))}
        if k == "f":
            return {"vt": "f", "x": fb(self.float_any())}
        if k == "b":
            return {"vt": "b", "x": self.p(0.5)}
        if k in ("d", "td"):
            secs = self.r.choice([0, 0, 1, 59, 3600, 10**6, 9223372036, 9223372037, 18446744073, 18446744074, 18446744073709, 18446744073709551, 18446744073709552, 2**63, U64MAX, self.r.randrange(U64MAX)])
            return {"vt": k, "x": {"secs": w(secs), "nanos": self.r.choice([0, 1, 999, 1000, 1001, 999999, 1000000, 709551615, 709551616, 854775807, 999999999, self.r.randrange(10**9)])}, **({"u": self.unit()} if k == "td" else {})}
        if k == "tu":
            return {"vt": "tu", "x": w(self.r.choice([0, 1, 999, 1000, 999999, 10**6, 10**9 - 1, 10**9, 9223372036, 9223372037, 9223372036854, 9223372036854776, I64MAX, 2**63, 18446744073, 18446744074, 18446744073709, 18446744073710,
                                                      18446744073709551, 18446744073709552, U64MAX, self.r.randrange(U64MAX)])), "u": self.unit()}
        return {"vt": k, "x": w(0)}

    def src_plain(self):
        """values an application would observe"""
        k = self.ch(["i64", "i64", "i32", "u64", "u8", "us", "f", "b", "d", "tu", "td", "inc", "dec", "incby", "decby", "chg"])
        if k in ("i64", "i32", "chg"):
            return {"vt": k, "x": w(self.small())}
        if k in ("u64", "u8", "us", "incby", "decby"):
            return {"vt": k, "x": w(self.r.randint(0, 50))}
        if k == "f":
            return {"vt": "f", "x": fb(self.r.choice([0.5, 1.5, 2.25, -3.5, 7.0, 0.0, 12.75]))}
        if k == "b":
            return {"vt": "b", "x": self.p(0.5)}
        if k in ("d", "td"):
            return {"vt": k, "x": {"secs": w(self.r.randint(0, 3)), "nanos": self.r.randrange(10**9)}, **({"u": self.unit()} if k == "td" else {})}
        if k == "tu":
            u = self.unit()
            return {"vt": "tu", "x": w(self.r.randint(0, {"ns": 10**10, "us": 10**7, "ms": 10**4, "s": 10}[u])), "u": u}
        return {"vt": k, "x": w(0)}

    def obs(self, l=None, ts=0, kinds="n1vv", src=None, cmax=9):
        l = self.label() if l is None else l
        k = self.ch(kinds)
        o = {"k": k, "l": l, "ts": ts}
        if k == "n":
            o["c"] = w(self.r.randint(0, cmax))
        if k == "v":
            o["v"] = (src or self.src_plain)()
        return o

    # ---- filters and modifiers ----
    def filt(self, k=None, how=None):
        k = k or self.ch(["all", "none", "labels", "labels", "labels", "pred", "pred"])
        f = {"k": k, "ls": [], "m": 2, "r": 0, "add": [], "via": "conv", "how": how or self.ch(["new", "for", "swap", "acc"])}
        if k == "all":
            f["via"] = self.ch(["conv", "default", "fn"])
        elif k == "none":
            f["via"] = self.ch(["conv", "vec", "fn"])
        elif k == "pred":
            f["via"] = self.ch(["LP", "predicate", "conv"])
            f["m"] = self.r.randint(1, 4)
            f["r"] = self.r.randrange(f["m"])
        else:
            via = self.ch(["new", "L", "one", "raw", "t2", "t3", "t4", "t5", "vec", "vec", "another"])
            n = {"new": 1, "L": 1, "one": 1, "raw": 1, "t2": 2, "t3": 3, "t4": 4, "t5": 5}.get(via)
            if n is None:
                n = self.r.choice([0, 1, 2, 3, 4, 5, 6, 7])
            f["via"] = via
            f["ls"] = self.labels(n)
        if self.p(0.25):
            f["add"] = self.labels(self.r.randint(1, 3))
        return f

    def wide_filt(self):
        """mostly accepting"""
        return self.filt("all") if self.p(0.6) else self.filt()

    ALL = {"k": "all", "ls": [], "m": 2, "r": 0, "add": [], "via": "conv", "how": "new"}
    KEEP = {"k": "keep"}

    def modif(self):
        k = self.ch(["keep", "keep", "keep", "one", "cnt", "val", "lbl", "iflbl"])
        m = {"k": k}
        if k == "cnt":
            m["c"] = w(self.r.randint(0, 5))
        if k in ("val", "iflbl"):
            m["v"] = self.src_plain()
        if k == "iflbl":
            m["l"] = self.label()
        return m

    # ---- instruments ----
    def texts(self, p=0.3):
        return {"ti": [self.name("T")] if self.p(p) else [], "de": [self.name("D")] if self.p(p) else []}

    def alt(self):
        return [{"k": self.ch(["pre", "post", "ren"]), "s": self.dname("alt")}] if self.p(0.7) else []

    DURS = [[], [0], [1], [5], [500], [1000], [2000], [60000], [3600000], [-1]]

    def instr(self, k=None, **kw):
        k = k or self.ch(["counter", "gauge", "meter", "vmeter", "histo", "flag", "stair", "occ", "nonocc", "disp", "last"])
        d = {"k": k, "n": self.dname(k[0]), **self.texts()}
        if k == "gauge":
            d.update(unit=self.unit(), group=self.p(0.4), track=self.ch([0, 0, 1, 2, 3, 60]), init=[w(self.small())] if self.p(0.3) else [])
        elif k == "meter" or k == "vmeter":
            d.update(r1=self.p(0.8), r5=self.p(0.5), r15=self.p(0.5), cut=[self.ch(["0", "0.001", "0.5", "0.1", "2"])] if self.p(0.3) else [])
            if k == "vmeter":
                d["unit"] = self.unit()
        elif k == "histo":
            d.update(unit=self.unit(), limit=self.ch([[], [], [1000], [5000], [-1]]), reset=self.p(0.5), show=self.p(0.7))
        elif k == "flag":
            d.update(init=self.ch([[], [True], [False]]), alt=self.alt())
        elif k in ("stair", "occ", "nonocc"):
            d.update(dur=self.ch(self.DURS), inv=self.p(0.3), alt=self.alt())
        elif k == "disp":
            d.update(dur=self.ch(self.DURS), rv=[self.item(0)] if self.p(0.5) else [])
        elif k == "last":
            d.update(mkzero=self.p(0.5))
        d.update(kw)
        return d

    def adp(self, i=None, f=None, m=None):
        return {"k": "adp", "i": i or self.instr(), "f": f or self.ALL, "m": m or self.KEEP}

    def gadp(self, i=None, st=None, f=None, f2=None):
        d = {"k": "gadp", "st": st or self.ch(["filter", "deltas", "incdec"]), "i": i or self.instr("gauge"), "f": f or self.ALL}
        if d["st"] == "incdec":
            d["f2"] = f2 or self.filt("labels")
            if d["f"]["how"] in ("for", "new") and d["f2"]["k"] != d["f"]["k"]:
                d["f"] = dict(d["f"], how="acc")
        return d

    def rec(self, ret=None):
        return {"k": "rec", "id": self.name("rec"), "n": self.dname("r"), "ret": self.r.randint(0, 3) if ret is None else ret}

    # ---- snapshooters ----
    TXT = ["", "a", "x/y", "ö", "\"q\"", "\\", "\n\t", "\u0001", "\u2028", "😀", "_title", "nul\u0000", "{}[]", "</script>"]

    def item(self, depth, names=None):
        k = self.ch("iufbsg" if depth > 0 else "iufbs")
        if k == "i":
            x = w(self.int_in(I64MIN, I64MAX))
        elif k == "u":
            x = w(self.int_in(0, U64MAX))
        elif k == "f":
            x = fb(self.float_any())
        elif k == "b":
            x = self.p(0.5)
        elif k == "s":
            x = self.ch(self.TXT)
        else:
            x = self.items(depth - 1, names)
        return {"t": k, "x": x}

    def items(self, depth, names=None, nmax=4):
        return [{"n": self.ch(names) if names else self.dname("i"), "v": self.item(depth, names)} for _ in range(self.r.randint(0, nmax))]

    def finite(self, items):
        return items

    def snapsh(self):
        k = self.ch(["cell", "const", "poll"])
        if k == "cell":
            return {"k": "cell", "id": self.name("cell"), "items": self.items(1, nmax=2)}
        if k == "const":
            return {"k": "const", "n": self.dname("const"), **self.texts(), "v": self.item(1)}
        return {"k": "poll", "id": self.name("cell"), "n": self.dname("poll"), **self.texts(), "items": self.items(1, nmax=2), "group": self.p(0.5)}

    # ---- components ----
    def limit(self, p):
        return [self.ch([0, 1, 1000, 3000, 60000])] if self.p(p) else []

    def panel(self, depth=1, filt=None, lim=0.0, kinds=None, named=0.7, nmax=5, modif=False, texts=0.3, snaps=True):
        filt = filt or self.wide_filt
        mo = self.modif if modif else lambda: self.KEEP
        items = []
        for _ in range(self.r.randint(0 if depth == 0 else 1, nmax)):
            slot = self.ch(["counter", "gauge", "meter", "histo", "handler", "handler", "handler", "instr"] + (["panel"] * 3 if depth > 0 else []) + (["snap"] if snaps else []))
            if slot in ("counter", "meter", "histo"):
                if kinds and slot not in kinds:
                    continue
                x = self.adp(self.instr(slot), filt(), mo())
            elif slot == "gauge":
                if kinds and "gauge" not in kinds:
                    continue
                x = self.gadp(f=filt(), f2=filt())
            elif slot == "panel":
                x = self.panel(depth - 1, filt, lim, kinds, named, nmax, modif, texts, snaps)
            elif slot == "handler":
                x = self.handler(filt, kinds, mo)
            elif slot == "instr":
                x = {"i": self.instr(self.ch(kinds) if kinds else None)}
            else:
                x = self.snapsh()
            items.append({"slot": slot, "x": x, "b": self.p(0.5)})
        return {"k": "panel", "f": filt(), "n": [self.dname("p")] if self.p(named) else [], **self.texts(texts), "limit": self.limit(lim), "show": self.p(0.6), "items": items}

    def handler(self, filt=None, kinds=None, mo=None):
        filt = filt or self.wide_filt
        mo = mo or (lambda: self.KEEP)
        x = self.r.random()
        if x < 0.45:
            return self.rec()
        if x < 0.85:
            return self.adp(self.instr(self.ch(kinds) if kinds else None), filt(), mo())
        if kinds and "gauge" not in kinds:
            return self.rec()
        return self.gadp(f=filt(), f2=filt())

    def cockpit(self, depth=1, lim=0.0, named=0.7, texts=0.3, filt=None, kinds=None, snaps=True, nmax=4):
        items = []
        for _ in range(self.r.randint(0, nmax)):
            slot = self.ch(["panel", "panel", "handler"] + (["snap"] if snaps else []))
            x = self.panel(depth, filt, lim, kinds, named, texts=texts, snaps=snaps) if slot == "panel" else self.handler(filt, kinds) if slot == "handler" else self.snapsh()
            items.append({"slot": slot, "x": x, "b": self.p(0.5)})
        return {"k": "cockpit", "n": [self.dname("c")] if self.p(named) else [], **self.texts(texts), "limit": self.limit(lim), "show": self.p(0.6), "items": items}

    def proc(self, depth=1, lim=0.0, named=0.7, cap=0.4, filt=None, kinds=None, texts=0.3, snaps=True, items=None):
        its = []
        if items is None:
            for _ in range(self.r.randint(0, 4)):
                slot = self.ch(["cockpit", "cockpit", "handler", "handler"] + (["snap"] if snaps else []))
                x = self.cockpit(depth, lim, named, texts, filt, kinds, snaps) if slot == "cockpit" else self.handler(filt, kinds) if slot == "handler" else self.snapsh()
                its.append({"slot": slot, "x": x, "b": self.p(0.5)})
        else:
            its = items
        return {"k": "proc", "n": [self.dname("P")] if self.p(named) else [], "limit": self.limit(lim), "show": self.p(0.6), "cap": [self.r.choice([0, 1, 1, 2, 2, 3, 3, 4, 5, 5, 5, 5])] if self.p(cap) else [], "block": False,
                "tx": self.name("tx"), "items": its}

    def mount(self, depth=1, **kw):
        items = []
        for _ in range(self.r.randint(1, 3)):
            k = self.ch(["proc", "proc", "mount", "snap"]) if depth > 0 else self.ch(["proc", "proc", "snap"])
            x = self.proc(**kw) if k == "proc" else self.mount(depth - 1, **kw) if k == "mount" else self.snapsh()
            items.append({"slot": k, "x": x, "b": self.p(0.5)})
        return {"k": "mount", "n": [self.dname("M")] if self.p(kw.get("named", 0.7)) else [], "limit": self.limit(kw.get("lim", 0)), "items": items}


# ---- ways of configuring -------------------------------------------------------
KINDS = {"counter", "gauge", "meter", "vmeter", "histo", "flag", "stair", "occ", "nonocc", "disp", "last", "panel", "cockpit", "proc", "mount", "const", "poll", "drv", "amount"}


def varied(g, x):
    """every component definition gets a number choosing between equivalent ways of configuring it (field vy)"""
    if isinstance(x, list):
        for y in x:
            varied(g, y)
    elif isinstance(x, dict):
        if x.get("k") in KINDS and "vy" not in x and ("n" in x or "items" in x):
            x["vy"] = g.r.getrandbits(13)
        for y in x.values():
            varied(g, y)
    return x


# ---- walking definitions -------------------------------------------------------
def walk(d):
    yield d
    for it in d.get("items", []):
        if isinstance(it, dict) and "slot" in it:
            yield from walk(it["x"])


def txs_of(d):
    return [x["tx"] for x in walk(d) if x.get("k") == "proc"]


def recs_of(d):
    return [x["id"] for x in walk(d) if x.get("k") == "rec"]


def cells_of(d):
    return [x["id"] for x in walk(d) if x.get("k") in ("cell", "poll")]


def new(id, x):
    return {"op": "new", "id": id, "x": x}


def snap(id, d=False):
    return {"op": "snap", "id": id, "d": d}


def adv(ms):
    return {"op": "adv", "ms": ms}


def ob(id, o):
    return {"op": "obs", "id": id, "o": o}


def send(tx, o, api="transmit"):
    return {"op": "send", "tx": tx, "o": o, "api": api}


def process(id, st=None, m=None):
    return {"op": "process", "id": id, "max": UMAX if m is None else w(m), "st": st or {"k": "all"}}


def logs(d):
    return [{"op": "log", "id": r} for r in recs_of(d)]


def echo(g, tx, to=None):
    """a handler that sends through tx (the channel of processor transmitter to) when told a label"""
    l = g.r.randint(0, 3)
    return {"k": "echo", "l": l, "l2": g.r.randint(l + 1, 5), "tx": tx, "to": to or tx}


def add_echo(g, tx, via, to=None):
    return {"op": "ctl", "tx": via, "c": {"k": "add_handler", "x": echo(g, tx, to)}, "echo": True}


# ---- profiles -------------------------------------------------------------------
def c01(g):
    """order and exactly-once through one queue, with registrations in the stream"""
    items = [{"slot": "handler", "x": g.rec(), "b": g.p(0.5)} for _ in range(g.r.randint(0, 2))]
    items += [{"slot": "cockpit", "x": {"k": "cockpit", "n": [g.name("c")], "ti": [], "de": [], "limit": [], "show": True,
                                        "items": [{"slot": "handler", "x": g.rec(), "b": False} for _ in range(g.r.randint(0, 2))] +
                                                 [{"slot": "panel", "x": {"k": "panel", "f": Gen.ALL, "n": [g.name("p")], "ti": [], "de": [], "limit": [], "show": True,
                                                                          "items": [{"slot": "handler", "x": g.rec(), "b": False}]}, "b": False} for _ in range(g.r.randint(0, 1))]}, "b": False}
              for _ in range(g.r.randint(0, 2))]
    pr = g.proc(cap=0.0, items=items)
    s = [reset(True), new("P", pr)]
    txs = [pr["tx"]]
    recs = recs_of(pr)
    cks = [x["n"][0] for x in walk(pr) if x.get("k") == "cockpit"]
    pns = []
    t = 0
    if g.p(0.3):
        for _ in range(g.r.randint(1, 3)):
            s.append(add_echo(g, pr["tx"], pr["tx"]))
    for _ in range(g.r.randint(8, 40)):
        x = g.r.random()
        if x < 0.55 and txs:
            s.append(send(g.ch(txs), g.obs(ts=t), g.ch(["transmit", "transmit", "observed"])))
        elif x < 0.62 and txs:
            n = g.name("txc")
            s.append({"op": "clone", "tx": g.ch(txs), "to": n})
            txs.append(n)
        elif x < 0.66 and txs:
            tx = g.ch(txs)
            txs.remove(tx)
            s.append({"op": "droptx", "tx": tx})
        elif x < 0.82 and txs:
            k = g.ch(["add_handler", "add_cockpit", "remove_cockpit", "add_panel", "remove_panel"])
            c = {"k": k}
            if k == "add_handler":
                c["x"] = g.rec()
                recs.append(c["x"]["id"])
            elif k == "add_cockpit":
                c["x"] = {"k": "cockpit", "n": [g.name("c")], "ti": [], "de": [], "limit": [], "show": True, "items": [{"slot": "handler", "x": g.rec(), "b": False}]}
                recs += recs_of(c["x"])
                cks.append(c["x"]["n"][0])
            elif k == "remove_cockpit":
                c["n"] = g.ch(cks) if cks else "none"
            elif k == "add_panel":
                c["c"] = g.ch(cks) if cks else "none"
                c["x"] = {"k": "panel", "f": Gen.ALL, "n": [g.name("p")], "ti": [], "de": [], "limit": [], "show": True, "items": [{"slot": "handler", "x": g.rec(), "b": False}]}
                recs += recs_of(c["x"])
                pns.append((c["c"], c["x"]["n"][0]))
            else:
                c["c"], c["n"] = g.ch(pns) if pns else ("none", "none")
            s.append({"op": "ctl", "tx": g.ch(txs), "c": c})
        elif x < 0.95:
            s.append(process("P", m=g.ch([None, None, 0, 1, 2, 3, 5])))
        else:
            s.append(adv(g.ch([1, 10, 1000])))
    s.append(process("P"))
    s += [{"op": "log", "id": r} for r in recs]
    s.append(snap("P"))
    if g.p(0.5):
        for tx in txs:
            s.append({"op": "droptx", "tx": tx})
        s.append(process("P"))
        s += [{"op": "log", "id": r} for r in recs]
    return s


def c02(g):
    """bounded queues, the dropping kind: what is full, what is lost, what is reported"""
    cap = g.ch([0, 1, 1, 2, 3, 7]) if g.p(0.9) else None
    pr = g.proc(items=[{"slot": "handler", "x": g.rec(), "b": False}])
    # capacity 0 is a rendezvous: nothing ever waits
    pr["cap"] = [] if cap is None else [cap]
    pr["block"] = False
    s = [reset(True), new("P", pr), {"op": "q", "tx": pr["tx"]}]
    txs = [pr["tx"]]
    for _ in range(g.r.randint(5, 40)):
        x = g.r.random()
        tx = g.ch(txs)
        if x < 0.5:
            s.append(send(tx, g.obs(ts=0), g.ch(["transmit", "observed", "now"])))
            if g.p(0.5):
                s.append({"op": "q", "tx": g.ch(txs)})
        elif x < 0.6:
            n = g.name("txc")
            s.append({"op": "clone", "tx": tx, "to": n})
            txs.append(n)
        elif x < 0.65 and len(txs) > 1:
            txs.remove(tx)
            s.append({"op": "droptx", "tx": tx})
        elif x < 0.72:
            c = g.rec()
            s.append({"op": "ctl", "tx": tx, "c": {"k": "add_handler", "x": c}})
            s.append({"op": "q", "tx": tx})
        elif x < 0.95:
            s.append(process("P", m=g.ch([None, 0, 1, 2, 3])))
            s.append({"op": "q", "tx": tx})
        elif x < 0.96:
            break
    s += logs(pr)
    s.append(process("P"))
    s += logs(pr)
    if g.p(0.5):
        s.append({"op": "drop", "id": "P"})
        for _ in range(g.r.randint(1, 8)):
            s.append(send(g.ch(txs), g.obs(ts=0), g.ch(["transmit", "now"])))
            s.append({"op": "q", "tx": g.ch(txs)})
    return s


def strat(g):
    k = g.ch(["all", "all", "none", "age", "age", "default"])
    return {"k": k, "age": g.ch([0, 1, 5, 100, 1000, 30000, -1]), "dd": g.p(0.5)} if k == "age" else {"k": k}


def c03(g):
    top = g.mount(depth=g.r.randint(0, 2), kinds=["counter"], filt=g.wide_filt, cap=0.3, snaps=False) if g.p(0.6) else g.proc(kinds=["counter"], cap=0.3, snaps=False)
    s = [reset(True), new("X", top)]
    txs = txs_of(top)
    if not txs:
        return s + [process("X"), snap("X")]
    live = list(txs)
    free = [x["tx"] for x in walk(top) if x.get("k") == "proc" and not (x["cap"] and x["block"])]
    if free and g.p(0.4):
        for _ in range(g.r.randint(1, 3)):
            s.append(add_echo(g, g.ch(free), g.ch(txs)))
    for _ in range(g.r.randint(3, 14)):
        for _ in range(g.r.choice([0, 0, 1, 2, 5, 12])):
            if live:
                x = g.r.random()
                if x < 0.85:
                    s.append(send(g.ch(live), g.obs(ts=g.ch([0, 0, -5, -2000]))))
                else:
                    s.append({"op": "ctl", "tx": g.ch(live), "c": g.ch([{"k": "add_handler", "x": g.rec()}, {"k": "remove_cockpit", "n": "none"}, {"k": "remove_panel", "c": "x", "n": "y"}])})
        if g.p(0.1) and live:
            s.append({"op": "droptx", "tx": live.pop(g.r.randrange(len(live)))})
        s.append(process("X", strat(g), g.ch([None, None, 0, 1, 2, 3, 5, 8, 1000])))
        if g.p(0.3) and live:
            s.append({"op": "q", "tx": g.ch(live)})
        if g.p(0.2):
            s.append(adv(g.ch([1, 5, 1000])))
    s.append(process("X"))
    s.append(process("X"))
    return s + [snap("X")]


def c04(g):
    pr = g.proc(depth=0, cap=0.0, kinds=["counter", "gauge", "flag", "last", "disp"], snaps=False)
    r = g.rec()
    pr["items"].append({"slot": "handler", "x": r, "b": False})
    s = [reset(), new("P", pr)]
    age = g.ch([0, 1, 5, 100, 1000, 30000, 3600000])
    recs = recs_of(pr)
    for _ in range(g.r.randint(3, 10)):
        for _ in range(g.r.randint(0, 6)):
            if g.p(0.88):
                d = g.ch([0, 0, 1, 1, 2, -1, age, age + 1, age - 1, 30000, 30001, 29999, -1000])
                src = g.src_plain if g.p(0.5) else (lambda: g.src_kind(g.ch(["inc", "dec"])) if g.p(0.5) else {"vt": g.ch(["incby", "decby", "chg"]), "x": w(g.r.randint(0, 9))})
                s.append(send(pr["tx"], g.obs(ts=-d, src=src), "transmit"))
            elif g.p(0.5):
                x = g.rec()
                recs.append(x["id"])
                s.append({"op": "ctl", "tx": pr["tx"], "c": {"k": "add_handler", "x": x}})
            else:
                x = g.cockpit(0, kinds=["counter"], snaps=False)
                recs += recs_of(x)
                s.append({"op": "ctl", "tx": pr["tx"], "c": {"k": "add_cockpit", "x": x}})
            if g.p(0.2):
                s.append(adv(g.ch([1, 1, 5, age])))
        if g.p(0.5):
            s.append(adv(g.ch([0, 1, 1, 5, age, max(0, age - 1), age + 1])))
        st = g.ch([{"k": "all"}, {"k": "none"}, {"k": "default"}, {"k": "age", "age": age, "dd": True}, {"k": "age", "age": age, "dd": False}, {"k": "age", "age": age, "dd": g.p(0.5)}, {"k": "age", "age": -1, "dd": g.p(0.5)}])
        s.append(process("P", st, g.ch([None, None, None, 1, 2])))
        s.append({"op": "log", "id": r["id"]})
        if g.p(0.5):
            s.append(snap("P"))
    s.append(process("P", {"k": "all"}))
    return s + [{"op": "log", "id": x} for x in recs] + [snap("P")]


def c05(g):
    x = g.r.random()
    s = [reset()]
    if x < 0.25:
        # filters alone
        for _ in range(g.r.randint(5, 15)):
            s.append({"op": "filter", "f": g.filt(), "ls": list(range(-1, 8))})
        return s
    kinds = ["counter", "gauge", "last", "flag", "disp", "vmeter"]
    if x < 0.6:
        top = g.panel(depth=g.r.randint(0, 3), filt=g.filt, kinds=kinds, modif=True, nmax=6, texts=0, snaps=False)
        s.append(new("X", top))
        s += [{"op": "accepts", "id": "X", "l": l} for l in LABELS]
        for _ in range(g.r.randint(3, 12)):
            s.append(ob("X", g.obs()))
            if g.p(0.4):
                s.append(snap("X"))
    elif x < 0.8:
        # a single instrument behind every kind of adapter
        for j in range(4):
            f = g.filt()
            d = g.gadp(f=f, f2=g.filt()) if g.p(0.4) else g.adp(g.instr(g.ch(kinds)), f, g.modif())
            s.append(new("H%d" % j, d))
            for l in LABELS:
                s.append(ob("H%d" % j, g.obs(l)))
                s.append(snap("H%d" % j))
        return s
    else:
        top = g.proc(depth=2, filt=g.filt, kinds=kinds, cap=0, texts=0, snaps=False)
        s.append(new("X", top))
        for _ in range(g.r.randint(3, 10)):
            for _ in range(g.r.randint(1, 3)):
                s.append(send(top["tx"], g.obs()))
            s.append(process("X"))
    return s + logs(top) + [snap("X")]


def counting(g, kinds=("counter", "meter", "vmeter")):
    s = [reset()]
    ids = []
    for j in range(g.r.randint(1, 4)):
        d = g.adp(g.instr(g.ch(kinds)), g.wide_filt(), g.modif() if g.p(0.2) else g.KEEP)
        ids.append("H%d" % j)
        s.append(new(ids[-1], d))
    return s, ids


def c06(g):
    s, ids = counting(g)
    for _ in range(g.r.randint(5, 40)):
        x = g.r.random()
        i = g.ch(ids)
        if x < 0.65:
            s.append(ob(i, g.obs(cmax=g.ch([3, 100, 10**6, 2**40]))))
        elif x < 0.8:
            s.append(adv(g.ch([0, 1, 4999, 5000, 5001, 17000, 60000])))
        else:
            s.append(snap(i, g.p(0.2)))
    return s + [snap(i) for i in ids]


def c07(g):
    s = [reset()]
    ids = []
    for j in range(g.r.randint(1, 3)):
        gd = g.instr("gauge")
        gd["track"] = 0 if g.p(0.8) else gd["track"]
        d = g.gadp(i=gd, f=g.filt() if g.p(0.5) else g.ALL, f2=g.filt("labels")) if g.p(0.7) else g.adp(gd, g.wide_filt(), g.modif() if g.p(0.3) else g.KEEP)
        ids.append("H%d" % j)
        s.append(new(ids[-1], d))
        s.append(snap(ids[-1]))
    deltas = lambda: {"vt": g.ch(["incby", "decby", "chg"]), "x": w(g.r.randint(0, 40))} if g.p(0.6) else {"vt": g.ch(["inc", "dec"]), "x": w(0)}
    for _ in range(g.r.randint(8, 40)):
        i = g.ch(ids)
        s.append(ob(i, g.obs(kinds="vvvvvv1n", src=deltas if g.p(0.5) else g.src_plain)))
        if g.p(0.6):
            s.append(snap(i, g.p(0.1)))
        if g.p(0.1):
            s.append(adv(g.ch([1, 1000, 60000])))
    return s + [snap(i) for i in ids]


def c08(g):
    s = [reset()]
    track = g.ch([1, 2, 3, 3, 4, 5, 10, 60])
    gd = g.instr("gauge", track=track, group=g.p(0.5))
    s += [new("G", g.adp(gd)), snap("G")]
    for _ in range(g.r.randint(10, 45)):
        x = g.r.random()
        if x < 0.45:
            src = g.src_plain if g.p(0.3) else (lambda: {"vt": "i64", "x": w(g.r.choice([0, 1, -1, 5, 100, -50, g.small(), g.r.randint(-10**12, 10**12)]))})
            s.append(ob("G", g.obs(kinds="v" if g.p(0.95) else "1n", src=src)))
        elif x < 0.8:
            s.append(adv(g.ch([1, 250, 500, 999, 1000, 1000, 1000, 1001, 2000, 1000 * (track - 1), 1000 * track, 1000 * track - 1, 1000 * track + 1, 1000 * track * 2, 3600000])))
        else:
            s.append(snap("G", g.p(0.1)))
    return s + [snap("G")]


def c09(g):
    s, ids = counting(g, ("meter", "meter", "vmeter"))
    big = 0
    for _ in range(g.r.randint(8, 30)):
        x = g.r.random()
        i = g.ch(ids)
        if x < 0.4:
            s.append(ob(i, g.obs(cmax=g.ch([3, 100, 5000]), kinds="n1v")))
        elif x < 0.75:
            ms = g.ch([1, 500, 2500, 4999, 5000, 5001, 10000, 12345, 60000, 300000, 900000, 3600000])
            if ms > 60000:
                big += 1
                if big > 3:
                    ms = 5000
            s.append(adv(ms))
        else:
            s.append(snap(i))
    if g.p(0.2):
        # a rate that equals the cutoff
        c = g.ch([1, 2])
        d = dict(g.instr("meter"), r1=True, cut=[str(c)])
        s += [new("E", g.adp(d, g.ALL, g.KEEP)), ob("E", {"k": "n", "l": 1, "ts": 0, "c": w(5 * c)}), snap("E"), adv(5000), snap("E"), adv(5000), snap("E")]
    return s + [snap(i) for i in ids]


def c10(g):
    s = [reset()]
    lim = g.ch([[], [], [1000], [3000], [60000], [-1]])
    d = g.adp(g.instr("histo", limit=lim), g.wide_filt() if g.p(0.2) else g.ALL)
    s += [new("H", d), snap("H")]
    mode = g.ch(["small", "small", "wide", "equal", "plain"])

    def src():
        if mode == "small":
            return {"vt": "i64", "x": w(g.r.randint(-10, 10))}
        if mode == "wide":
            return {"vt": "i64", "x": w(g.int_in(-2**50, 2**50))}
        if mode == "equal":
            return {"vt": "u64", "x": w(7)}
        return g.src_plain()
    same = g.p(0.5)
    total = 0
    for _ in range(g.r.randint(4, 20)):
        n = g.r.choice([1, 1, 2, 3, 4, 5, 10]) if total < 60 else 1
        total += n
        for _ in range(n):
            s.append(ob("H", g.obs(kinds="vvvvvvvv1n", src=src)))
        if g.p(0.4):
            s.append(snap("H"))
        if g.p(0.1 if same else 0.5):
            l = lim[0] if lim and lim[0] > 0 else 1000
            s.append(adv(g.ch([1, 300, 999, 1000, l - 1, l, l + 1, 2 * l, 700000])))
            if g.p(0.5):
                s.append(snap("H"))
    return s + [snap("H")]


def sweep_big(seed):
    """histograms: just below, at and above what is kept exactly"""
    out = []
    for n in (999, 1000, 1001, 1029, 1400):
        g = Gen("big/%s/%d" % (seed, n))
        s = [reset(), new("H", g.adp(g.instr("histo", limit=[], reset=False)))]
        xs = list(range(n))
        g.r.shuffle(xs)
        for j, x in enumerate(xs):
            s.append(ob("H", {"k": "v", "l": 1, "ts": 0, "v": {"vt": "i64", "x": w(x - 300)}}))
            if n > 1000 and j % 500 == 499:
                s += [snap("H"), adv(1000)]
            elif j % 331 == 330:
                s.append(snap("H"))
        out.append(s + [snap("H"), adv(3600000), snap("H")])
    return out


def c11(g):
    s = [reset()]
    ids = []
    times = [0, 1, 4, 5, 6, 499, 500, 501, 999, 1000, 1001, 1999, 2000, 2001, 59999, 60000, 60001, 3600000, 3600001]
    for j in range(g.r.randint(1, 4)):
        d = g.adp(g.instr(g.ch(["flag", "stair", "occ", "nonocc", "disp", "last"])), g.wide_filt() if g.p(0.2) else g.ALL, g.modif() if g.p(0.1) else g.KEEP)
        ids.append("H%d" % j)
        s.append(new(ids[-1], d))
        s.append(snap(ids[-1]))
        if g.p(0.3):
            s.append(adv(g.ch(times)))
            s.append(snap(ids[-1]))
    for _ in range(g.r.randint(6, 30)):
        x = g.r.random()
        i = g.ch(ids)
        if x < 0.35:
            s.append(ob(i, g.obs(src=lambda: g.src_kind("b") if g.p(0.3) else g.src_extreme() if g.p(0.2) else g.src_plain())))
            s.append(snap(i))
        elif x < 0.75:
            s.append(adv(g.ch(times)))
            s.append(snap(i))
        else:
            s.append(snap(i, g.p(0.2)))
    return s + [snap(i) for i in ids]


def c12(g):
    """every kind of component with inactivity limits"""
    s = [reset()]
    kinds = ["counter", "histo", "gauge"]
    lims = [0, 1, 1000, 3000, 60000]
    times = [0, 1, 999, 1000, 1001, 2999, 3000, 3001, 60001]
    x = g.r.random()
    if x < 0.35:
        top = g.panel(depth=g.r.randint(0, 2), lim=0.8, kinds=kinds, nmax=3)
    elif x < 0.55:
        top = g.cockpit(depth=1, lim=0.8, kinds=kinds)
    elif x < 0.8:
        top = g.proc(depth=1, lim=0.8, cap=0.0, kinds=kinds)
    else:
        top = g.mount(depth=1, lim=0.8, cap=0.0, kinds=kinds)
    s += [new("X", top), snap("X")]
    txs = txs_of(top)
    for _ in range(g.r.randint(6, 24)):
        x = g.r.random()
        if x < 0.35:
            if txs:
                for _ in range(g.r.randint(0, 2)):
                    s.append(send(g.ch(txs), g.obs(ts=g.ch([0, 0, -100]))))
                s.append(process("X", g.ch([{"k": "all"}, {"k": "all"}, {"k": "none"}, {"k": "age", "age": 50, "dd": True}])))
            elif top["k"] in ("panel", "cockpit"):
                s.append(ob("X", g.obs()))
            if g.p(0.7):
                s.append(snap("X"))
        elif x < 0.8:
            s.append(adv(g.ch(times)))
            if g.p(0.7):
                s.append(snap("X"))
        else:
            s.append(snap("X", g.p(0.4)))
    return s + [snap("X")]


def c13(g):
    s = [reset()]
    x = g.r.random()
    if x < 0.2:
        top = g.panel(depth=3, texts=0.7)
    elif x < 0.4:
        top = g.cockpit(depth=2, texts=0.7)
    elif x < 0.6:
        top = g.proc(depth=2, cap=0, texts=0.7)
    else:
        top = g.mount(depth=2, cap=0, texts=0.7, lim=0.1)
    s += [new("X", top), snap("X", True), snap("X", False)]
    txs = txs_of(top)
    cells = cells_of(top)
    kids = []
    for _ in range(g.r.randint(3, 12)):
        x = g.r.random()
        if x < 0.4:
            if txs:
                s.append(send(g.ch(txs), g.obs()))
                s.append(process("X"))
            elif top["k"] in ("panel", "cockpit"):
                s.append(ob("X", g.obs()))
        elif x < 0.55:
            s.append(adv(g.ch([1, 1000, 5000, 60000])))
        elif x < 0.65 and cells:
            s.append({"op": "cell", "id": g.ch(cells), "items": g.items(1, nmax=2)})
        elif x < 0.75:
            if top["k"] == "mount":
                s.append({"op": "direct", "id": "X", "c": {"k": "add_snap", "x": g.snapsh()}})
            elif top["k"] == "proc":
                s.append({"op": "direct", "id": "X", "c": g.ch([{"k": "add_snap", "x": g.snapsh()}, {"k": "add_cockpit", "x": g.cockpit(0)}])})
            else:
                s.append({"op": "direct", "id": "X", "c": g.ch([{"k": "add_snap", "x": g.snapsh()}, {"k": "add_panel", "x": g.panel(0)}, {"k": "add_handler", "x": g.handler()}])})
        elif x < 0.8:
            s.append({"op": "direct", "id": "X", "c": {"k": "set_name", "n": g.dname("N")}})
        d = g.p(0.5)
        s.append(snap("X", d))
        if g.p(0.5):
            s.append(snap("X", d))
    return s + [snap("X", True), snap("X", False)]


PATHN = ["a", "b", "c", "ab", "", " ", "a.b", "ä", "_x", "count"]


def c14(g):
    s = [reset()]
    for _ in range(g.r.randint(3, 8)):
        sn = g.items(g.r.randint(0, 4), PATHN if g.p(0.8) else None, nmax=5)
        x = g.r.random()
        if x < 0.3:
            dflt = g.p(0.3)
            names = Gen.TXT + PATHN
            sn = g.items(g.r.randint(0, 4), names, nmax=5)
            s.append({"op": "json", "sn": sn, "pretty": g.ch([[], [], [0], [2], [4]]), "dflt": dflt, "bi": g.p(0.5)})
            continue
        for _ in range(g.r.randint(2, 8)):
            sep = g.ch(["/", "/", ".", "-", "ö"])
            # follow the snapshot for a while, then maybe something else
            segs, level = [], sn
            while level and g.p(0.85):
                e = g.ch(level)
                segs.append(e["n"])
                if e["v"]["t"] != "g":
                    break
                level = e["v"]["x"]
            if g.p(0.3):
                segs.insert(g.r.randint(0, len(segs)), g.ch(PATHN + ["", "zz"]))
            if g.p(0.2):
                segs += [g.ch(PATHN)]
            k = g.r.randint(0, len(segs))
            cutp = g.p(0.35)
            path = sep.join(segs[:k] if cutp else segs)
            if g.p(0.2):
                path = sep + path
            if g.p(0.2):
                path = path + sep
            then = [sep.join(segs[k:])] if cutp else []
            s.append({"op": "find", "sn": sn, "path": path, "sep": sep, "then": then, "d": False})
    return s


def c15(g):
    """few names, many registrations, directly and through a transmitter"""
    s = [reset()]
    CN, PN = ["c1", "c2", g.ch(["c3", "", "C1", " c2", "c"])], ["p1", "p2", g.ch(["p3", "", "P1", "p2 ", "p"])]

    def panel():
        return {"k": "panel", "f": g.wide_filt(), "n": [g.ch(PN)] if g.p(0.8) else [], **g.texts(), "limit": [], "show": True,
                "items": [{"slot": "handler", "x": g.rec(), "b": g.p(0.5)} for _ in range(g.r.randint(0, 2))]}

    def cockpit():
        return {"k": "cockpit", "n": [g.ch(CN)] if g.p(0.8) else [], **g.texts(), "limit": [], "show": True,
                "items": [{"slot": "panel", "x": panel(), "b": g.p(0.5)} for _ in range(g.r.randint(0, 4))] + [{"slot": "handler", "x": g.rec(), "b": g.p(0.5)} for _ in range(g.r.randint(0, 1))]}
    onlyc = g.p(0.25)
    if onlyc:
        s.append(new("X", cockpit()))
    else:
        pr = g.proc(cap=0, items=[{"slot": g.ch(["cockpit"]), "x": cockpit(), "b": g.p(0.5)} for _ in range(g.r.randint(0, 4))])
        s.append(new("X", pr))
    s += [{"op": "names", "id": "X"}, snap("X", True)]
    for _ in range(g.r.randint(5, 25)):
        x = g.r.random()
        if onlyc:
            if x < 0.3:
                s.append({"op": "direct", "id": "X", "c": {"k": "add_panel", "x": panel()}})
            elif x < 0.55:
                s.append({"op": "direct", "id": "X", "c": {"k": "remove_panel", "n": g.ch(PN + ["none", "", "P2"])}})
            elif x < 0.6:
                s.append({"op": "direct", "id": "X", "c": {"k": "set_name", "n": g.ch(CN)}})
            else:
                s.append(ob("X", g.obs()))
        else:
            tx = pr["tx"]
            if x < 0.2:
                s.append(send(tx, g.obs()))
            elif x < 0.35:
                s.append({"op": "ctl", "tx": tx, "c": {"k": "add_cockpit", "x": cockpit()}})
            elif x < 0.45:
                s.append({"op": "direct", "id": "X", "c": {"k": "add_cockpit", "x": cockpit()}})
            elif x < 0.55:
                s.append({"op": "ctl", "tx": tx, "c": {"k": "remove_cockpit", "n": g.ch(CN + ["none", "", "C2"])}})
            elif x < 0.7:
                s.append({"op": "ctl", "tx": tx, "c": {"k": "add_panel", "c": g.ch(CN + ["none", "", "C2"]), "x": panel()}})
            elif x < 0.82:
                s.append({"op": "ctl", "tx": tx, "c": {"k": "remove_panel", "c": g.ch(CN + ["none", "", "C2"]), "n": g.ch(PN + ["none", "", "P2"])}})
            elif x < 0.86:
                s.append({"op": "ctl", "tx": tx, "c": {"k": "add_handler", "x": g.rec()}})
            else:
                s.append(process("X", m=g.ch([None, None, 1, 2])))
        if g.p(0.4):
            s += [{"op": "names", "id": "X"}, snap("X", g.p(0.3))]
    if not onlyc:
        s.append(process("X"))
    for l in LABELS:
        if onlyc:
            s.append(ob("X", g.obs(l)))
        else:
            s.append(send(pr["tx"], g.obs(l)))
    if not onlyc:
        s.append(process("X"))
    return s + [{"op": "names", "id": "X"}, snap("X", True)]


def c19(g):
    """mounts, processors moved into them at any time and depth"""
    s = [reset(True)]
    kw = dict(cap=0.0, kinds=["counter"], named=0.7, depth=0, snaps=True)
    m0 = {"k": "mount", "n": [g.name("M")] if g.p(0.7) else [], "limit": [], "items": []}
    s.append(new("X", m0))
    free = []     # not attached yet: id, transmitters
    txs = []
    mounts = ["X"]
    for _ in range(g.r.randint(6, 25)):
        x = g.r.random()
        if x < 0.2:
            i = g.name("o")
            d = g.proc(**kw) if g.p(0.6) else g.mount(g.r.randint(0, 1), cap=0.0, kinds=["counter"])
            s.append(new(i, d))
            free.append((i, d["k"]))
            txs += txs_of(d)
        elif x < 0.4 and free:
            j = g.r.randrange(len(free))
            i, k = free.pop(j)
            targets = ["X"] + [f for f, fk in free if fk == "mount"]
            s.append({"op": "attach", "id": g.ch(targets), "child": i})
        elif x < 0.65 and txs:
            for _ in range(g.r.randint(1, 4)):
                s.append(send(g.ch(txs), g.obs()))
        elif x < 0.7:
            s.append({"op": "direct", "id": "X", "c": {"k": "add_snap", "x": g.snapsh()}})
        elif x < 0.9:
            s.append(process("X", strat(g), g.ch([None, None, 1, 3])))
            s.append(snap("X", g.p(0.2)))
        else:
            s.append(adv(g.ch([1, 1000])))
    for i, _ in free:
        s.append({"op": "attach", "id": "X", "child": i})
    s.append(process("X"))
    return s + [{"op": "names", "id": "X"}, snap("X", True)]


def c20(g):
    s = [reset()]
    ids = []
    for j in range(g.r.randint(1, 4)):
        x = g.r.random()
        if x < 0.6:
            d = g.adp(g.instr())
            if d["i"]["k"] == "gauge" and g.p(0.5):
                d["i"]["init"] = [w(g.int_in(I64MIN, I64MAX))]
        elif x < 0.8:
            d = g.gadp(f=g.filt())
        else:
            d = g.panel(depth=1)
        ids.append("H%d" % j)
        s.append(new(ids[-1], d))
    pr = g.proc(cap=0.0, depth=1, snaps=False)
    s.append(new("P", pr))
    for _ in range(g.r.randint(8, 30)):
        x = g.r.random()
        o = {"k": g.ch("nvvv1"), "l": g.label(), "ts": g.ch([0, 0, -1, -3600000, 1, 3600000, 86400000])}
        if o["k"] == "n":
            o["c"] = w(g.ch([0, 1, I64MAX, 2**63, U64MAX, U64MAX - 1, g.int_in(0, U64MAX)]))
        if o["k"] == "v":
            o["v"] = g.src_extreme()
        if x < 0.55:
            s.append(ob(g.ch(ids), o))
            if g.p(0.4):
                s.append(snap(s[-1]["id"]))
        elif x < 0.7:
            s.append(send(pr["tx"], o))
        elif x < 0.8:
            s.append(process("P", strat(g)))
            s.append(snap("P"))
        elif x < 0.9:
            s.append(adv(g.ch([0, 1, 1000, 5000, 60000, 100000])))
        else:
            s.append(snap(g.ch(ids)))
    s.append(process("P"))
    return s + [snap(i) for i in ids] + [snap("P")]


def c22(g):
    s = [reset()]
    if g.p(0.5):
        for _ in range(g.r.randint(10, 40)):
            s.append({"op": "conv", "v": g.src_extreme()})
        return s
    r = g.rec()
    pr = g.proc(cap=0.0, items=[{"slot": "handler", "x": r, "b": False}])
    s.append(new("P", pr))
    for _ in range(g.r.randint(5, 25)):
        x = g.r.random()
        if x < 0.15:
            s.append({"op": "measure", "tx": pr["tx"], "l": g.label(), "from": g.ch([0, -1, -1000, -123456, -86400000, 5, 1000])})
        elif x < 0.9:
            api = g.ch(["transmit", "observed", "now", "onow"])
            ts = 0 if api in ("now", "onow") else g.ch([0, 0, -1, -5000, 1, 777, -86400000])
            o = {"k": g.ch("n1vvv"), "l": g.label(), "ts": ts}
            if o["k"] == "n":
                o["c"] = w(g.int_in(0, U64MAX))
            if o["k"] == "v":
                o["v"] = g.src_extreme()
            s.append(send(pr["tx"], o, api))
        else:
            s.append(adv(g.ch([0, 1, 17, 1000])))
        if g.p(0.15):
            s.append(process("P"))
    return s + [process("P"), {"op": "log", "id": r["id"]}]


# ---- sweeps: every boundary value once, into every instrument ---------------
def read(id):
    return {"op": "read", "id": id}


READABLE = ["counter", "gauge", "flag", "stair", "occ", "nonocc", "disp", "last", "meter", "vmeter", "histo"]


def reading(kinds):
    """instruments asked directly, and what their snapshots show"""
    def f(g):
        s = [reset()]
        ids = []
        for j in range(g.r.randint(1, 4)):
            i = g.instr(g.ch(kinds))
            if i["k"] == "counter" and g.p(0.3):
                i["pre"] = [w(g.ch([1, 1, 0, 2, 7, 2**40, U64MAX])) for _ in range(g.r.randint(1, 3))]
            d = g.gadp(i=i, f=g.filt() if g.p(0.4) else g.ALL, f2=g.filt("labels")) if i["k"] == "gauge" and g.p(0.7) else g.adp(i, g.wide_filt() if g.p(0.3) else g.ALL, g.modif() if g.p(0.1) else g.KEEP)
            ids.append(("R%d" % j, d))
            s += [new(ids[-1][0], d), read(ids[-1][0]), snap(ids[-1][0], True)]
        for _ in range(g.r.randint(4, 25)):
            i, d = g.ch(ids)
            x = g.r.random()
            if x < 0.15 and d["k"] == "gadp":
                s.append({"op": "gset", "id": i, "v": g.src_plain()})
            elif x < 0.5:
                s.append(ob(i, g.obs(src=g.src_extreme if g.p(0.2) else g.src_plain)))
            elif x < 0.75:
                s.append(adv(g.ch([1, 499, 500, 501, 1000, 1999, 2000, 2001, 60000, 60001, 3600000])))
            s.append(read(i))
            if g.p(0.4):
                s.append(snap(i, g.p(0.3)))
        return s
    return f


def c23(g):
    """components of every kind, renamed, extended; what their getters tell and what is shown"""
    k = g.ch(["panel", "cockpit", "cockpit", "proc", "mount"])
    d = g.panel(2, named=0.8, lim=0.4, texts=0.5) if k == "panel" else g.cockpit(1, named=0.8, lim=0.4, texts=0.5) if k == "cockpit" else g.proc(1, named=0.8, lim=0.4, texts=0.5) if k == "proc" else g.mount(1, named=0.8, lim=0.4, texts=0.5)
    s = [reset(), new("X", d)]
    looks = lambda: [snap("X", g.p(0.6))] + ([{"op": "names", "id": "X"}] if k in ("cockpit", "proc", "mount") else [])
    s += looks()
    for _ in range(g.r.randint(3, 12)):
        x = g.r.random()
        if x < 0.3:
            s.append({"op": "direct", "id": "X", "c": {"k": "set_name", "n": g.dname("again")}})
        elif x < 0.5 and k == "cockpit":
            c = g.ch([{"k": "set_name", "n": g.dname("nth")}, {"k": "add_panel", "x": g.panel(1)}, {"k": "add_handler", "x": g.handler()}, {"k": "add_snap", "x": g.snapsh()}])
            s.append({"op": "direct", "id": "X", "c": {"k": "nth", "j": g.r.randint(1, 3), "c": c}})
        elif x < 0.7:
            c = {"panel": ["add_panel", "add_handler", "add_snap"], "cockpit": ["add_panel", "add_handler", "add_snap", "remove_panel"], "proc": ["add_cockpit", "add_handler", "add_snap"], "mount": ["add_snap"]}[k]
            c = g.ch(c)
            x = {"k": c, "x": g.panel(1) if c == "add_panel" else g.cockpit(1) if c == "add_cockpit" else g.handler() if c == "add_handler" else g.snapsh()} if c != "remove_panel" else {"k": c, "n": g.dname("nth")}
            s.append({"op": "direct", "id": "X", "c": x})
        elif x < 0.85:
            s.append(adv(g.ch([1, 999, 1000, 1001, 3000, 60001])))
        elif k in ("panel", "cockpit"):
            s.append(ob("X", g.obs()))
        else:
            for tx in txs_of(d):
                s.append(send(tx, g.obs()))
            s.append(process("X"))
        s += looks()
    return s


def sweep_adapters(seed):
    """every instrument behind every kind of label filter, attached in every way there is"""
    g = Gen("adapters/%s" % seed)
    out = []
    for kind in READABLE:
        s = [reset()]
        for fk in ("all", "none", "labels", "labels", "pred"):
            for how in ("new", "for", "swap", "acc"):
                n = g.name("A")
                f = g.filt(fk, how)
                if fk == "labels" and how in ("new", "for") and g.p(0.7):
                    f = dict(f, ls=[g.label()], via="new", add=[])
                d = {"k": "gadp", "st": "filter", "i": g.instr(kind), "f": f} if kind == "gauge" else dict(g.adp(g.instr(kind)), f=f)
                s.append(new(n, d))
                for l in LABELS:
                    s.append(ob(n, g.obs(l=l, src=g.src_plain, kinds="v" if g.p(0.7) else "n1v")))
                s.append(snap(n))
        out.append(s)
    return out


def sweep_conf(seed):
    """every instrument with every single way of configuring and every setting"""
    g = Gen("conf/%s" % seed)
    out = []
    for kind in READABLE:
        for rep in range(4):
            s = [reset()]
            for b in range(14):
                i = dict(g.instr(kind), ti=["T"], de=["D"], vy=0 if b == 12 else 4095 if b == 13 else 1 << b)
                if "alt" in i:
                    i["alt"] = [{"k": ["pre", "post", "ren"][(b + rep) % 3], "s": "alt_"}]
                if rep % 2 and "inv" in i:
                    i["inv"] = True
                d = {"k": "gadp", "st": "filter", "i": i, "f": g.ALL} if kind == "gauge" else g.adp(i)
                n = "S%d" % b
                s += [new(n, d), read(n), snap(n, True), ob(n, g.obs(src=g.src_plain)), read(n), snap(n, True), adv(g.ch([1, 500, 2000])), read(n), snap(n)]
            out.append(s)
    return out


def all_values():
    i64 = [I64MIN, I64MIN + 1, -2**53 - 1, -2**32, -2**31 - 1, -128, -1, 0, 1, 127, 128, 255, 256, 2**31 - 1, 2**31, 2**32, 2**53, 2**53 + 1, I64MAX - 1, I64MAX]
    u64 = [0, 1, 255, 256, 2**31, 2**32 - 1, 2**32, 2**53 + 1, I64MAX - 1, I64MAX, 2**63, 2**63 + 1, U64MAX - 1, U64MAX]
    fl = [0.0, -0.0, 0.5, -0.5, 0.49999999999999994, -0.49999999999999994, 1.5, 2.5, -1.5, -2.5, 0.1, 1e-300, 5e-324, 1e300, -1e300, 4503599627370495.5, 4503599627370496.5, 4503599627370497.0, 9007199254740991.0, 9007199254740993.0,
          9223372036854774784.0, 9223372036854775808.0, 9223372036854777856.0, -9223372036854775808.0, -9223372036854777856.0, 18446744073709549568.0, 18446744073709551616.0, 18446744073709555712.0,
          1.7976931348623157e308, -1.7976931348623157e308, float("inf"), float("-inf"), float("nan")]
    out = [{"vt": "i64", "x": w(x)} for x in i64] + [{"vt": "chg", "x": w(x)} for x in i64]
    out += [{"vt": "u64", "x": w(x)} for x in u64] + [{"vt": "us", "x": w(x)} for x in u64]
    for k, lo, hi in (("i8", -128, 127), ("i16", -2**15, 2**15 - 1), ("i32", -2**31, 2**31 - 1), ("u8", 0, 255), ("u16", 0, 2**16 - 1), ("u32", 0, 2**32 - 1), ("incby", 0, 2**32 - 1), ("decby", 0, 2**32 - 1)):
        out += [{"vt": k, "x": w(x)} for x in (lo, hi)]
    out += [{"vt": "f", "x": fb(x)} for x in fl] + [{"vt": "b", "x": True}, {"vt": "b", "x": False}, {"vt": "inc", "x": w(0)}, {"vt": "dec", "x": w(0)}]
    per = {"ns": 10**9, "us": 10**6, "ms": 10**3, "s": 1}
    for u in per:
        xs = {0, 1, 999, 1000, 1001, 10**6 - 1, 10**6, 10**9 - 1, 10**9, I64MAX, 2**63, U64MAX - 1, U64MAX}
        for f in (10**3, 10**6, 10**9):      # just representable after the change of the unit, and just not
            xs |= {U64MAX // f, U64MAX // f + 1, I64MAX // f, I64MAX // f + 1, U64MAX // f + 77}
        out += [{"vt": "tu", "x": w(x), "u": u} for x in sorted(xs)]
        secs = {0, 1, U64MAX // per[u], U64MAX // per[u] + 1, U64MAX // per[u] + 12345, 2 * (U64MAX // per[u]) + 5, I64MAX // per[u], I64MAX // per[u] + 1, 2**63 + 2**20, U64MAX}
        for x in sorted(secs):
            for n in (0, 1, 999, 1000, 999999, 10**6, 709551615, 709551616, 854775807, 854775808, 999999999):
                if x <= U64MAX and (n in (0, 999999999) or x in (0, U64MAX // per[u], I64MAX // per[u])):
                    out.append({"vt": "td", "x": {"secs": w(x), "nanos": n}, "u": u})
    out += [{"vt": "d", "x": v["x"]} for v in out if v["vt"] == "td" and v["u"] == "ns"]
    return out


def sweep(kinds, chunk, reset_each=False):
    """panels with one instrument of each kind; the values go in by portions"""
    def make(seed):
        g = Gen("sweep/%s" % seed)
        vals = all_values()
        g.r.shuffle(vals)
        out = []
        for k in range(0, len(vals), chunk):
            s = [reset()]
            ids = []
            for kind in kinds:
                for unit in (["ns", "us", "ms", "s"] if kind in ("gauge", "vmeter", "histo") else [None]):
                    x = {} if unit is None else {"unit": unit}
                    if kind == "gauge":
                        x.update(track=g.ch([0, 2]), init=[])
                    if kind == "histo":
                        x.update(limit=[])
                    ids.append("S%d" % len(ids))
                    s.append(new(ids[-1], g.adp(g.instr(kind, **x))))
            for v in vals[k:k + chunk]:
                for i in ids:
                    s.append(ob(i, {"k": "v", "l": 0, "ts": 0, "v": v}))
                    if not (kinds == ["histo"]):
                        s.append(snap(i))
            out.append(s + [snap(i) for i in ids])
        return out
    return make


def sweep_conv(seed):
    vals = all_values()
    out = []
    for k in range(0, len(vals), 60):
        g = Gen("sweepc/%d" % k)
        r = g.rec()
        out.append([reset()] + [{"op": "conv", "v": v} for v in vals[k:k + 60]])
        pr = g.proc(cap=0.0, items=[{"slot": "handler", "x": r, "b": False}])
        out.append([reset(), new("P", pr)] + [send(pr["tx"], {"k": "v", "l": 1, "ts": 0, "v": v}, g.ch(["transmit", "observed", "now", "onow"])) for v in vals[k:k + 60]] + [process("P"), {"op": "log", "id": r["id"]}])
    return out


def sweep_counts(seed):
    cs = [0, 1, 2, 255, 256, 2**16, 2**31 - 1, 2**31, 2**31 + 1, 2**32 - 1, 2**32, 2**32 + 1, 5 * 2**32, 2**53 + 1, 2**62, I64MAX - 1, I64MAX, 2**63, 2**63 + 1, U64MAX - 1, U64MAX]
    out = []
    for i, c in enumerate(cs):
        g = Gen("sweepn/%d" % i)
        s = [reset()] + [new(k, g.adp(g.instr(k))) for k in ("counter", "meter", "vmeter")]
        for d in [c] + cs[i % 3::3]:
            for k in ("counter", "meter", "vmeter"):
                s += [ob(k, {"k": "n", "l": 0, "ts": 0, "c": w(d)}), snap(k)]
        out.append(s)
    return out


def burst(tx, n, l=1):
    return {"op": "burst", "tx": tx, "n": n, "l": l}


def sweep_burst(seed):
    """queues with thousands of messages: limits, orders and sums do not depend on how many there are"""
    g = Gen("burst/%d" % seed)
    out = []
    for cap, ns, ms in [([], [2001], [1000, 1000, 1000]), ([], [1001, 1], [1001, None]), ([1024], [1023, 2, 5], [1, 1024]), ([1000], [1500], [999, 1]), ([], [300, 300, 700], [256, 255, 257, 100, None])]:
        s = [reset()]
        h = [{"slot": "handler", "x": g.adp(dict(g.instr("counter"), n="c"), g.ALL, g.KEEP), "b": False}, {"slot": "handler", "x": g.rec(), "b": False},
             {"slot": "handler", "x": g.adp(g.instr("meter"), g.ALL, g.KEEP), "b": False}]
        pr = g.proc(cap=0, items=h)
        pr["cap"], pr["block"] = cap, False
        s.append(new("P", pr))
        for n in ns:
            s += [burst(pr["tx"], n, g.label()), {"op": "q", "tx": pr["tx"]}]
        for m in ms:
            s += [process("P", m=m, st={"k": "all"}), {"op": "q", "tx": pr["tx"]}, snap("P")]
        s += [burst(pr["tx"], 3), process("P", st={"k": "none"}), burst(pr["tx"], 300), process("P", m=280, st={"k": "none"}), process("P", st={"k": "all"}), snap("P")]
        for r in recs_of(pr):
            s.append({"op": "log", "id": r})
        out.append(s)
    return out


def sweep_find(seed):
    """every kind of item, at the limits, looked up, read and rendered"""
    vs = [("i", w(x)) for x in (0, 1, -1, 999, 1000, 2**31, 2**53 + 1, I64MAX - 1, I64MAX, I64MIN, I64MIN + 1, -1000)]
    vs += [("u", w(x)) for x in (0, 1, 999, 1000, 2**32, 2**53 + 1, 2**63 - 1, 2**63, 2**63 + 1, U64MAX - 1, U64MAX)]
    vs += [("f", fb(x)) for x in (0.0, -0.0, 1.0, 1.5, -2.25, 1e15, 1e16, 1e300, 5e-324, 0.1, 2.0**63, 2.0**64, -1e-7, float("inf"), float("-inf"), float("nan"))]
    vs += [("b", True), ("b", False), ("g", [])] + [("s", x) for x in Gen.TXT]
    items = [{"n": "k%d" % j, "v": {"t": t, "x": x}} for j, (t, x) in enumerate(vs)]
    out = []
    for k in range(0, len(items), 9):
        part = items[k:k + 9]
        deep = [{"n": "g", "v": {"t": "g", "x": part}}]
        s = [reset()]
        for e in part:
            s += [{"op": "find", "sn": part, "path": e["n"], "sep": "/", "then": [], "d": False}, {"op": "find", "sn": deep, "path": "g/" + e["n"], "sep": "/", "then": [], "d": False},
                  {"op": "find", "sn": deep, "path": "g", "sep": "/", "then": [e["n"]], "d": False}, {"op": "find", "sn": deep, "path": "g/%s/x" % e["n"], "sep": "/", "then": [], "d": False}]
        for pretty in ([], [2]):
            for dflt, bi in ((False, True), (False, False), (True, False)):
                s.append({"op": "json", "sn": deep, "pretty": pretty, "dflt": dflt, "bi": bi})
        out.append(s)
    return out


def sweep_scale(seed):
    """more of everything than one would set up by hand"""
    g = Gen("scale/%d" % seed)
    one = lambda l: {"k": "1", "l": l, "ts": 0}
    out = []

    def cnt(n=None, f=None):
        return g.adp(dict(g.instr("counter"), **({"n": n} if n else {})), f or g.ALL, g.KEEP)

    def hnd(x):
        return {"slot": "handler", "x": x, "b": g.p(0.5)}

    def panel(items, n, f=None):
        return {"k": "panel", "f": f or g.ALL, "n": [n] if n is not None else [], **g.texts(0.2), "limit": [], "show": True, "items": items}

    def cockpit(items, n):
        return {"k": "cockpit", "n": [n] if n is not None else [], **g.texts(0.2), "limit": [], "show": True, "items": items}
    # deep
    x = panel([hnd(cnt()), hnd(g.rec())], "p0")
    for j in range(1, 14):
        x = panel([hnd(cnt()), {"slot": "panel", "x": x, "b": g.p(0.5)}], "p%d" % j if j % 5 else None)
    c = cockpit([{"slot": "panel", "x": x, "b": False}], "deep")
    s = [reset(), new("X", c), snap("X", True)]
    for k in range(4):
        s += [ob("X", g.obs()), snap("X", k % 2 == 0)]
    out.append(s)
    m = {"k": "mount", "n": ["m0"], "limit": [], "items": [{"slot": "proc", "x": g.proc(depth=0, cap=0, items=[hnd(cnt()), hnd(g.rec())]), "b": False}]}
    for j in range(1, 12):
        m = {"k": "mount", "n": ["m%d" % j] if j % 4 else [], "limit": [], "items": [{"slot": "mount", "x": m, "b": g.p(0.5)}, {"slot": "proc", "x": g.proc(depth=0, cap=0, items=[hnd(cnt())]), "b": False}]}
    s = [reset(), new("X", m), snap("X", True)]
    for k in range(3):
        for tx in txs_of(m):
            s += [send(tx, g.obs()) for _ in range(g.r.randint(0, 2))]
        s += [process("X", m=g.ch([None, 1, 2])), snap("X")]
    out.append(s + [process("X"), snap("X", True), {"op": "names", "id": "X"}])
    # wide
    items = [{"slot": "cockpit", "x": cockpit([{"slot": "panel", "x": panel([hnd(cnt())], "p"), "b": False}], "c%d" % j if j % 7 else None), "b": False} for j in range(70)]
    pr = g.proc(cap=0, items=items + [hnd(cnt()) for _ in range(40)])
    tx = pr["tx"]
    s = [reset(), new("X", pr), {"op": "names", "id": "X"}]
    for k in range(3):
        s += [send(tx, g.obs()) for _ in range(3)] + [{"op": "ctl", "tx": tx, "c": {"k": "remove_cockpit", "n": "c%d" % g.r.randrange(80)}}, {"op": "ctl", "tx": tx, "c": {"k": "add_cockpit", "x": cockpit([hnd(cnt())], "c%d" % g.r.randrange(70))}},
              {"op": "ctl", "tx": tx, "c": {"k": "add_panel", "c": "c%d" % g.r.randrange(70), "x": panel([hnd(cnt())], g.ch(["p", "q"]))}}, process("X"), snap("X")]
    out.append(s + [{"op": "names", "id": "X"}])
    c = cockpit([{"slot": "panel", "x": panel([hnd(cnt())], "p%d" % j if j % 9 else None), "b": False} for j in range(80)], "wide")
    s = [reset(), new("X", c)]
    for k in range(4):
        s += [{"op": "direct", "id": "X", "c": {"k": "remove_panel", "n": "p%d" % g.r.randrange(85)}}, {"op": "direct", "id": "X", "c": {"k": "add_panel", "x": panel([hnd(cnt())], "p%d" % g.r.randrange(80))}}, ob("X", g.obs()), snap("X")]
    out.append(s + [{"op": "names", "id": "X"}])
    # filters with many labels
    for n in (8, 9, 16, 17, 33, 70):
        f = {"k": "labels", "ls": g.r.sample(range(100), n), "m": 2, "r": 0, "add": [], "via": "vec", "how": "new"}
        f2 = dict(f, ls=f["ls"][:n - 4], add=f["ls"][n - 4:])
        for ff in (f, f2):
            s = [reset(), new("X", panel([hnd(cnt()), hnd(g.adp(g.instr("meter"), ff, g.KEEP))], "P", ff))]
            s += [{"op": "accepts", "id": "X", "l": l} for l in range(100)] if n > 30 or ff is f else []
            for l in ff["ls"][::3] + [200, ff["ls"][-1]]:
                s.append(ob("X", one(l)))
            out.append(s + [snap("X")])
    # long texts
    long = "x" * 3000 + "ö"
    c = dict(cockpit([hnd(cnt("y" * 300)), {"slot": "panel", "x": panel([hnd(cnt("ü" * 70))], "z" * 257), "b": False}], long), ti=["t" * 1025], de=["d" * 2049])
    out.append([reset(), new("X", c), ob("X", one(1)), snap("X", True), {"op": "direct", "id": "X", "c": {"k": "remove_panel", "n": "z" * 256}}, {"op": "direct", "id": "X", "c": {"k": "remove_panel", "n": "z" * 257}}, snap("X", True)])
    # many senders
    pr = g.proc(cap=0, items=[hnd(cnt()), hnd(g.rec())])
    s, txs = [reset(), new("X", pr)], [pr["tx"]]
    for j in range(300):
        s.append({"op": "clone", "tx": g.ch(txs), "to": "k%d" % j})
        txs.append("k%d" % j)
    g.r.shuffle(txs)
    for j, t in enumerate(txs[:-1]):
        if j % 9 == 0:
            s += [send(t, one(j % 5))]
        s.append({"op": "droptx", "tx": t})
        if j % 60 == 0:
            s.append(process("X"))
    s += [process("X"), send(txs[-1], one(3)), {"op": "q", "tx": txs[-1]}, process("X"), {"op": "droptx", "tx": txs[-1]}, process("X"), process("X"), snap("X")]
    out.append(s)
    # long windows and long times
    d = dict(g.instr("gauge"), track=3700, init=[], group=False)
    s = [reset(), new("X", g.adp(d, g.ALL, g.KEEP))]
    for ms in (1000, 3600000, 99000, 1000, 1000, 1800000, 1900000, 1000, 86400000, 1):
        s += [ob("X", {"k": "v", "l": 1, "ts": 0, "v": {"vt": "i64", "x": w(g.r.randint(-1000, 1000))}}), snap("X"), adv(ms), snap("X")]
    out.append(s)
    return out


SCALED = {"C01", "C03", "C05", "C07", "C08", "C12", "C13", "C15", "C19"}
SWEEPS = {"C14": [sweep_find], "C01": [sweep_burst], "C02": [sweep_burst], "C03": [sweep_burst], "C06": [sweep_counts, sweep(["counter", "meter", "vmeter"], 30)], "C07": [sweep(["gauge"], 25)], "C10": [sweep(["histo"], 7), sweep_big], "C11": [sweep(["flag", "disp", "stair", "occ", "nonocc", "last"], 40)],
          "C20": [sweep_counts, sweep(["gauge", "vmeter", "histo", "counter", "meter", "flag", "disp"], 12)], "C05": [sweep_adapters], "C22": [sweep_conv], "C23": [sweep_conf, sweep_adapters]}


def sweeps(prop, seed):
    return [s for f in SWEEPS.get(prop, []) + ([sweep_scale] if prop in SCALED else []) for s in f(seed)]


POOL = ["a", "ab", "abc", "b", "", "a_b", "A"]
PROFILES = {"C01": [c01], "C02": [c02], "C03": [c03], "C04": [c04], "C05": [c05], "C06": [c06, c06, c06, reading(["counter", "counter", "meter", "vmeter"])], "C07": [c07, c07, c07, reading(["gauge"])], "C08": [c08], "C09": [c09], "C10": [c10], "C11": [c11, c11, c11, reading(["flag", "stair", "occ", "nonocc", "disp", "last"])],
            "C12": [c12], "C13": [c13], "C14": [c14], "C15": [c15], "C19": [c19], "C20": [c20], "C22": [c22], "C23": [c23, reading(READABLE)]}


def stamped(g, s):
    """observations that are handed to a component directly may carry another time than the one they arrive at"""
    for op in s:
        if op["op"] == "obs" and op["o"]["ts"] == 0 and g.p(0.15):
            op["o"]["ts"] = g.ch([-1, -1000, -5000, -60001, -3600000, 1, 5000, 3600000])
    return s


def sessions(prop, n, seed):
    out = []
    for k in range(n):
        fs = PROFILES[prop]
        g = Gen("%s/%s/%d" % (prop, seed, k))
        if prop in ("C03", "C05", "C12", "C13", "C19", "C23") and k % 4 == 3:
            g.pool = POOL
        out.append(stamped(g, fs[k % len(fs)](g)))
    return out
