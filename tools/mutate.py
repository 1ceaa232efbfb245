#!/usr/bin/env python3
"""mutate.py [Cxx..]   are the properties of the specification idle?
Each mutation changes one rule of the specification; the invariants (Props) of the
named property, or its liveness properties (LiveSys), must notice it."""
import os, shutil, sys, tempfile, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mxcore, worlds
from mxcore import run_model, run_live, ToolError

# property, module, text, replaced by[, live]
MUTATIONS = [
    ("C01", "Metrix", "r == ObserveAll(R.kids, 1, m.o, R.A, now) IN [R EXCEPT !.kids = r.x", "r == ObserveAll(IF R.p > 0 THEN Tail(R.kids) ELSE R.kids, 1, m.o, R.A, now) IN [R EXCEPT !.kids = IF R.p > 0 THEN <<R.kids[1]>> \\o r.x ELSE r.x"),
    ("C01", "Comp", "[chans EXCEPT ![c].q = Append(@, m)]", "[chans EXCEPT ![c].q = <<m>> \\o @]"),
    ("C01", "Comp", "!.logs = (x.id :> Append(LogOf(@, x.id), o)) @@ @", "!.logs = (x.id :> Append(LogOf(@, x.id), [o EXCEPT !.l = 0])) @@ @"),
    ("C02", "Comp", "Len(c.q) >= c.cap[1]", "Len(c.q) > c.cap[1]"),
    ("C02", "Sys", "Enter(st, c, e) == [st EXCEPT !.chans[c].q = Append(@, e.m)", "Enter(st, c, e) == [st EXCEPT !.chans[c].q = Append(@, [e.m EXCEPT !.o.l = 7])"),
    ("C02", "Sys", "ELSE IF Room(st, c) THEN UNION {SettleCh(Enter(st, c, e), c) : e \\in Blocked(st, c)}", "ELSE IF Room(st, c) /\\ Cardinality(Blocked(st, c)) > 1 THEN UNION {SettleCh(Enter(st, c, e), c) : e \\in Blocked(st, c)}"),
    ("C02", "Sys", "st.chans[c].cap = <<0>> /\\ st.chans[c].rx", "st.chans[c].cap = <<0>> /\\ n > 1 /\\ st.chans[c].rx"),
    ("C02", "Sys", "!.blk[c] = @ \\ {e}, !.bdone = @ \\cup {e.b}], c, n - 1, r, s)", "!.blk[c] = {}, !.bdone = @ \\cup {e.b}], c, n - 1, r, s)"),
    ("C02", "Sys", "Room(st, c) == st.chans[c].rx /\\ ~Full(st.chans[c])", "Room(st, c) == st.chans[c].rx /\\ ~Full(st.chans[c]) /\\ Cardinality(Blocked(st, c)) > 1", "live"),
    ("C03", "Metrix", "IF max = <<>> THEN -1 ELSE max[1], [kids", "IF max = <<>> THEN -1 ELSE max[1] + 1, [kids"),
    ("C03", "Metrix", "u |-> r.A.n, q |-> Len(r.A.chans[x.ch].q)", "u |-> r.A.n, q |-> Len(st.chans[x.ch].q)"),
    ("C03", "Metrix", "AddOut(a, b) == [p |-> a.p + b.p", "AddOut(a, b) == [p |-> b.p"),
    ("C04", "Metrix", "IF Rejects(s, m.o, now) THEN [R EXCEPT !.d = @ + 1]", "IF Rejects(s, m.o, now) /\\ m.o.u.k # \"n\" THEN [R EXCEPT !.d = @ + 1]"),
    ("C05", "Comp", "IF x.k = \"panel\" /\\ ~Accepts(x.d.f, o.l)", "IF x.k = \"panel\" /\\ ~Accepts(x.d.f, o.l) /\\ x.d.f.k # \"labels\""),
    ("C05", "Comp", "  \\/ InSeq(f.add, l)", "  \\/ f.k # \"pred\" /\\ InSeq(f.add, l)"),
    ("C06", "Instr", "IF u.k = \"n\" THEN u.c ELSE W1))], n |-> 1]", "IF u.k = \"n\" THEN W1 ELSE W1))], n |-> 1]"),
    ("C06", "Instr", "SatI64(WAdd(@, n)), !.unc", "SatI64(WAdd(@, W1)), !.unc"),
    ("C07", "Instr", "IF g.val = <<>> THEN v.x ELSE WAdd(g.val[1], v.x)", "IF g.val = <<>> THEN W0 ELSE WAdd(g.val[1], v.x)"),
    ("C07", "Comp", "IF Accepts(x.f2, o.l) THEN <<one(WNeg(W1))>>", "IF Accepts(x.f2, o.l) THEN <<one(W1)>>"),
    ("C08", "Instr", "LAMBDA e : e.s > GSlot(g, now) - g.d.track)\n      c ==", "LAMBDA e : e.s >= GSlot(g, now) - g.d.track)\n      c =="),
    ("C08", "Instr", "lo |-> WMin(e.lo, v)", "lo |-> v"),
    ("C09", "Instr", "WAdd(m.rates[i], WShr(WMul(Alpha[i]", "WAdd(m.rates[i], WShr(WMul(Alpha[1]"),
    ("C09", "Instr", "LET ir == WDivK(Scaled(m.unc), 5)", "LET ir == WDivK(Scaled(m.unc), 4)"),
    ("C10", "Instr", "THEN [h0 EXCEPT !.vals = <<>>, !.born = now] ELSE h0", "THEN h0 ELSE h0"),
    ("C10", "Instr", "hi == FoldLeft(WMax, xs[1], Tail(xs))", "hi == xs[n]"),
    ("C11", "Instr", "OccOn(i, now) == i.last # <<>> /\\ (DurOf(i.d) = -1 \\/ now - i.last[1] < DurOf(i.d))", "OccOn(i, now) == i.last # <<>> /\\ (DurOf(i.d) = -1 \\/ now - i.last[1] <= DurOf(i.d))"),
    ("C11", "Instr", "THEN i.val ELSE i.d.rv", "THEN i.val ELSE i.val"),
    ("C12", "Comp", "IN [x |-> [x EXCEPT !.kids = r.x, !.last = now], A |-> r.A]", "IN [x |-> [x EXCEPT !.kids = r.x, !.last = IF r.A.n > A.n THEN now ELSE @], A |-> r.A]"),
    ("C12", "Metrix", "!.last = IF r.p + r.d > 0 THEN st.now ELSE @", "!.last = IF r.p > 0 THEN st.now ELSE @"),
    ("C13", "Comp", "PutTexts(into, x, E.desc), [n |-> x.n", "PutTexts(into, x, TRUE), [n |-> x.n"),
    ("C13", "Comp", "Append(into, Group(name[1], put(<<>>)))", "Append(into, Group(name[1], put(into)))"),
    ("C14", "Metrix", "IF segs = <<>> \\/ item.t # \"g\" THEN <<item>>", "IF segs = <<>> THEN <<item>> ELSE IF item.t # \"g\" THEN <<>>"),
    ("C15", "Comp", "AddUnique(kids, x) == IF NameOf(x) # <<>> /\\", "AddUnique(kids, x) == IF"),
    ("C15", "Comp", "LAMBDA x : ~(x.k = k /\\ NameOf(x) = <<n>>)", "LAMBDA x : ~(x.k = k /\\ NameOf(x) \\in {<<n>>, <<>>})"),
    ("C16", "Sys", "c.k = \"resume\" -> AfterTake(SetD(W, id, LAMBDA d : [d EXCEPT !.paused = FALSE]), id)", "c.k = \"resume\" -> AfterTake(SetD(W, id, LAMBDA d : [d EXCEPT !.paused = d.procs = <<>>, !.cmds = <<>>]), id)"),
    ("C16", "Sys", "c.k = \"resume\" -> AfterTake(SetD(W, id, LAMBDA d : [d EXCEPT !.paused = FALSE]), id)", "c.k = \"resume\" -> AfterTake(W, id)"),
    ("C16", "Sys", "IF W.st.drvs[id].paused THEN Stop(W, id, [at |-> \"sleep\"], \"sleep\")\n", "IF W.st.drvs[id].paused /\\ W.st.tix = <<>> THEN Stop(W, id, [at |-> \"sleep\"], \"sleep\")\n"),
    ("C16", "Sys", "c.k = \"strat\" -> AfterTake(SetD(W, id, LAMBDA d : [d EXCEPT !.strat = c.st]), id)", "c.k = \"strat\" -> AfterTake(IF W.st.drvs[id].paused THEN W ELSE SetD(W, id, LAMBDA d : [d EXCEPT !.strat = c.st]), id)"),
    ("C16", "Sys", "IF W.all /\\ W.st.drvs[id].cmds # <<>> THEN TakeOne(W, id) ELSE AfterCmds(W, id)", "IF W.all /\\ W.st.drvs[id].cmds # <<>> THEN TakeOne(W, id) ELSE AfterCmds(SetD(W, id, LAMBDA d : [d EXCEPT !.cmds = IF Len(@) > 1 THEN <<>> ELSE @]), id)", "live"),
    ("C17", "Sys", "!.ans = IF W.st.tix[t].left THEN @ ELSE Append(", "!.ans = IF W.st.tix[t].left \\/ d.paused THEN @ ELSE Append("),
    ("C17", "Sys", "!.ans = IF W.st.tix[t].left THEN @ ELSE Append(", "!.ans = IF W.st.tix[t].left \\/ d.paused THEN @ ELSE Append(", "live"),
    ("C17", "Sys", "[d EXCEPT !.procs = Append(@, c.x)]", "[d EXCEPT !.procs = <<c.x>>]"),
    ("C18", "Sys", "Alive(st, id) == NamedHandles(st, id) # {} \\/ SyncPending(st, id) # {}", "Alive(st, id) == NamedHandles(st, id) # {} \\/ SyncPending(st, id) # {} \\/ st.drvs[id].cmds # <<>>"),
    ("C18", "Sys", "Alive(st, id) == NamedHandles(st, id) # {} \\/ SyncPending(st, id) # {}", "Alive(st, id) == NamedHandles(st, id) # {} \\/ SyncPending(st, id) # {} \\/ st.drvs[id].paused", "live"),
    ("C18", "Sys", "!.rel = @ \\cup {x.id : x \\in {y \\in nodes : y.k = \"probe\"}}]", "!.rel = @]"),
    ("C18", "Sys", "!.rel = @ \\cup {x.id : x \\in {y \\in nodes : y.k = \"probe\"}}]", "!.rel = @]", "live"),
    ("C19", "Metrix", "r == ProcessAll(x.kids \\o new, 1", "r == ProcessAll(x.kids, 1"),
    ("C19", "Metrix", "r == ProcessAll(x.kids \\o new, 1", "r == ProcessAll(x.kids, 1", "live"),
    ("C19", "Sys", "IN IF st.achans[c].rx THEN [st EXCEPT !.achans[c].q = Append(@, node)]", "IN IF st.achans[c].rx THEN [st EXCEPT !.achans[c].q = <<node>>]"),
    ("C20", "Instr", "!.count = SatU64(WAdd(@,", "!.count = (WAdd(@,"),
    ("C20", "Instr", "<<SatI64(ToUnit(v.x, v.u, g.d.unit))>>", "<<ToUnit(v.x, v.u, g.d.unit)>>"),
    ("C21", "Sys", "IF out.p > 0 THEN Upd1(Upd1(m1, 2, Many(out.p), now)", "IF out.p > 0 THEN Upd1(Upd1(m1, 2, Many(1), now)"),
    ("C21", "Sys", "m3 == Upd1(m2, 6, Val(out.q), now)", "m3 == IF out.q > 0 THEN Upd1(m2, 6, Val(out.q), now) ELSE m2"),
    ("C21", "Sys", "Val(out.d), now), 9, One, now)", "Val(out.d), now), 10, One, now)"),
    ("C22", "Metrix", "WMulPow10(WInt(-op.from), 6)", "WMulPow10(WInt(-op.from), 5)"),
    ("C23", "Instr", "[t |-> \"b\", x |-> NonOccOn(i, now) # i.d.inv]", "[t |-> \"b\", x |-> NonOccOn(i, now)]"),
    ("C23", "Instr", "PutStair(i, into, desc, now) == PutSwitch(i.d, StairOn(i, now) # i.d.inv, into, desc)", "PutStair(i, into, desc, now) == PutSwitch(i.d, StairOn(i, now), into, desc)"),
    ("C23", "Instr", "<<DurOf(i.d), i.d.inv>>", "<<DurOf(i.d), FALSE>>"),
    ("C23", "Instr", "DispValue(i, now)\n           [] OTHER", "i.val\n           [] OTHER"),
    ("C23", "Instr", "IF \"pre\" \\in DOMAIN d THEN SatU64(WSumSeq(d.pre)) ELSE W0", "W0"),
    ("C23", "Metrix", "[st EXCEPT !.objs[op.id].i = GSet(@, FromSrc(op.v), st.now)]", "st"),
    ("C23", "Metrix", "!.kids[js[c.j]] = Direct(@, c.c, now)", "!.kids[js[1]] = Direct(@, c.c, now)"),
    ("C23", "Metrix", "c.k = \"set_name\" -> [x EXCEPT !.d.n = <<c.n>>]", "c.k = \"set_name\" -> [x EXCEPT !.d.n = <<c.n>>, !.kids = <<>>]"),
]


def main(want):
    home = mxcore.SPEC
    bad = 0
    for m in MUTATIONS:
        prop, mod, old, new = m[:4]
        live = len(m) > 4
        if (want and prop not in want):
            continue
        tmp = tempfile.mkdtemp(prefix="mutate-")
        try:
            shutil.copytree(home, os.path.join(tmp, "spec"))
            mxcore.SPEC = os.path.join(tmp, "spec")
            p = os.path.join(mxcore.SPEC, mod + ".tla")
            s = open(p).read()
            if s.count(old) != 1:
                print("%s %-7s DOES NOT APPLY (%d): %s" % (prop, mod, s.count(old), old[:80]), flush=True)
                bad += 1
                continue
            open(p, "w").write(s.replace(old, new))
            t = time.time()
            try:
                if live:
                    run_live(worlds.LIVE[prop][0], worlds.LIVE[prop][1]("quick"), tmp)
                    v = ""
                else:
                    v = run_model(worlds.WORLDS[prop]("quick"), tmp, "quick", 400)["violation"] or ""
            except ToolError as e:
                v = open(os.path.join(tmp, "tlc-error.txt")).read() if os.path.exists(os.path.join(tmp, "tlc-error.txt")) else str(e)
                v = v[v.find("Error:"):]
            ok = "is violated" in v or "was violated" in v or "were violated" in v
            bad += not ok
            print("%s %-7s %-4s %-10s %5.1f s  %s" % (prop, mod, "live" if live else "", "noticed" if ok else "NOT NOTICED", time.time() - t, new.replace("\n", " ")[:70]), flush=True)
            if not ok:
                print("    ", v[:400].replace("\n", " "))
        finally:
            shutil.rmtree(tmp, ignore_errors=True)
    return 1 if bad else 0


sys.exit(main(sys.argv[1:]))
