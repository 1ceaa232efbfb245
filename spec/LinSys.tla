------------------------------- MODULE LinSys -------------------------------
(* Histories of threads that run freely (calls and returns, in the order of   *)
(* real time) must be explained by Sys: every call takes effect at one moment *)
(* between its begin and its return (a call of process: at one moment for     *)
(* each message it takes and one at which it counts what is left), a driver   *)
(* goes on by itself in small steps.                                          *)
(*                                                                            *)
(* C: [st, pend, ans]: a state of Sys the system may be in; what is known     *)
(* of the calls that have not returned: pend[t] = [op, ph, ...] with          *)
(* ph = "called", "taking", "count", "asked" or "done"; answers to requests.  *)
(* One line of the trace is one history.                                      *)
EXTENDS Sys, Json, IOUtils
VARIABLES i, bad
vars == <<i, bad>>
Trace == TLCEval(ndJsonDeserialize(IOEnv.TRACE))

Done(C, t, st, res) == [C EXCEPT !.st = st, !.pend[t] = [op |-> @.op, ph |-> "done", res |-> res]]
Atomic(C, t, S) == {Done(C, t, r.st, r.res) : r \in S}

(* ---------------------------------- callers --------------------------------- *)
\* into a queue: one that waits for room goes on only when there is some
Put1(C, t, tx, m) ==
  LET c == C.st.chans[C.st.txs[tx]]
  IN IF c.rx /\ c.block /\ Full(c) THEN {} ELSE {Done(C, t, Enqueue(C.st, tx, m), Plain)}
\* the processor of a pending call of process
Taking(C, t) ==
  LET p == C.pend[t]
      x == C.st.objs[p.op.id]
      q == C.st.chans[x.ch].q
  IN IF p.n = 0 \/ q = <<>>
     THEN {[C EXCEPT !.st.objs[p.op.id] = [x EXCEPT !.last = IF p.R.p + p.R.d > 0 THEN C.st.now ELSE @], !.pend[t].ph = "count"]}
     ELSE LET r == TakeMsg(q[1], [kids |-> x.kids, p |-> p.R.p, d |-> p.R.d, A |-> [n |-> p.R.u, logs |-> C.st.logs, chans |-> [C.st.chans EXCEPT ![x.ch].q = Tail(@)]]], p.op.st, C.st.now)
          IN {[C EXCEPT !.st.objs[p.op.id].kids = r.kids, !.st.logs = r.A.logs, !.st.chans = r.A.chans,
                        !.pend[t].n = @ - 1, !.pend[t].R = [p |-> r.p, d |-> r.d, u |-> r.A.n]]}
CallStep(C, t) ==
  LET p == C.pend[t] op == p.op IN
  CASE p.ph = "done" -> {}
    [] p.ph = "taking" -> Taking(C, t)
    [] p.ph = "count" -> {Done(C, t, C.st, [k |-> "out", o |-> [p |-> p.R.p, d |-> p.R.d, u |-> p.R.u, q |-> Len(C.st.chans[C.st.objs[op.id].ch].q)]])}
    [] p.ph = "asked" -> IF "@" \o ToString(t) \in DOMAIN C.ans THEN {Done([C EXCEPT !.ans = Without(@, "@" \o ToString(t))], t, C.st, C.ans["@" \o ToString(t)])} ELSE {}
    [] op.op = "send" -> Put1(C, t, op.tx, ObsMsg(ObsOf(op.o, C.st.now)))
    [] op.op = "ctl" -> Put1(C, t, op.tx, op.c @@ [at |-> C.st.now])
    [] op.op = "process" -> Taking([C EXCEPT !.pend[t] = [op |-> op, ph |-> "taking", n |-> IF op.max = <<>> THEN -1 ELSE op.max[1], R |-> [p |-> 0, d |-> 0, u |-> 0]]], t)
    [] op.op = "qs" -> LET c == C.st.chans[C.st.txs[op.tx]]
                       IN {Done(C, t, C.st, [k |-> "qs", rx |-> c.rx, what |-> op.what, size |-> Len(c.q), b |-> IF op.what = "full" THEN Full(c) ELSE c.q = <<>>])}
    [] op.op = "dask" -> LET d == C.st.hs[op.h] n == "@" \o ToString(t)
                         IN {[C EXCEPT !.st = Cmd([@ EXCEPT !.tix = (n :> [drv |-> d, d |-> op.d, sync |-> FALSE, left |-> FALSE]) @@ @], op.h, [k |-> "req", t |-> n]),
                                       !.pend[t].ph = "asked"]}
    [] op.op = "dawait" -> IF op.t \in DOMAIN C.ans THEN {Done([C EXCEPT !.ans = Without(@, op.t)], t, C.st, C.ans[op.t])} ELSE {}
    [] op.op = "dend" -> IF Cardinality(C.st.rel) >= op.n THEN {Done([C EXCEPT !.st.rel = {}], t, C.st, [k |-> "drel", rel |-> C.st.rel])} ELSE {}
    [] op.op \in DrvOps -> Atomic(C, t, DrvStep(C.st, op))
    [] OTHER -> Atomic(C, t, {r \in Steps(C.st, op) : TRUE})

(* ---------------------------------- drivers --------------------------------- *)
Pc(C, d, pc) == [C EXCEPT !.st.drvs[d].pc = pc]
AfterCommands(C, d) == IF C.st.drvs[d].paused THEN {Pc(C, d, [at |-> "sleep"])} ELSE {Pc(C, d, [at |-> "pass", j |-> 1, k |-> 0])}
SnapD(st, d, desc) ==
  LET x == st.drvs[d] E == EnvOf(st, desc)
      lv == IF desc THEN AddText(AddText(<<>>, "_title", x.d.ti), "_description", x.d.de) ELSE <<>>
      \* how many passes there were is open
      probe(y) == IF y.k = "probe" THEN [k |-> "wild", n |-> y.n, t |-> "u"] ELSE y
      b == PutAnyAll(x.snaps, 1, PutAnyAll([j \in 1..Len(x.procs) |-> probe(x.procs[j])], 1, lv, E), E)
  IN IF x.d.n = <<>> THEN b ELSE <<Group(x.d.n[1], b)>>
Command(C, d) ==
  LET c == C.st.drvs[d].cmds[1]
      D == [C EXCEPT !.st.drvs[d].cmds = Tail(@)]
  IN CASE c.k = "proc" -> [D EXCEPT !.st.drvs[d].procs = Append(@, c.x)]
       [] c.k = "snap" -> [D EXCEPT !.st.drvs[d].snaps = Append(@, c.x)]
       [] c.k = "strat" -> [D EXCEPT !.st.drvs[d].strat = c.st]
       [] c.k = "pause" -> [D EXCEPT !.st.drvs[d].paused = TRUE]
       [] c.k = "resume" -> [D EXCEPT !.st.drvs[d].paused = FALSE]
       [] c.k = "req" -> [D EXCEPT !.ans = (c.t :> [k |-> "ans", err |-> FALSE, s |-> SnapD(C.st, d, C.st.tix[c.t].d)]) @@ @, !.st.tix = Without(@, c.t)]
\* a pass goes from component to component, and within a mount from child to child
DriverStep(C, d) ==
  LET x == C.st.drvs[d] IN
  CASE x.pc.at = "sleep" ->
         IF NamedHandles(C.st, d) # {} THEN {Pc(C, d, [at |-> "cmds"])}
         ELSE LET r == EndDriver(C.st, d)
              IN {[C EXCEPT !.st = r.st, !.ans = [t \in r.gone |-> [k |-> "ans", err |-> TRUE, s |-> <<>>]] @@ @]}
    [] x.pc.at = "cmds" ->
         IF x.cmds = <<>> THEN AfterCommands(C, d) ELSE LET D == Command(C, d) IN {D} \cup AfterCommands(D, d)
    [] x.pc.at = "pass" ->
         LET j == x.pc.j k == x.pc.k IN
         IF j > Len(x.procs) THEN {Pc(C, d, [at |-> "sleep"])}
         ELSE LET p == x.procs[j] IN
              IF p.k \in {"mount", "amount"}
              THEN IF k = 0
                   THEN \* takes over what was handed to an attached mount
                        {Pc(IF p.k = "amount" THEN [C EXCEPT !.st.drvs[d].procs[j].kids = @ \o C.st.achans[p.ch].q, !.st.achans[p.ch].q = <<>>] ELSE C, d, [x.pc EXCEPT !.k = 1])}
                   ELSE IF k > Len(p.kids) THEN {Pc(C, d, [at |-> "pass", j |-> j + 1, k |-> 0])}
                   ELSE LET r == Process(p.kids[k], C.st, <<1000>>, x.strat)
                        IN {Pc([C EXCEPT !.st = [r.st EXCEPT !.drvs[d].procs[j].kids[k] = r.x]], d, [x.pc EXCEPT !.k = k + 1])}
              ELSE IF p.k = "probe" THEN {Pc(C, d, [at |-> "pass", j |-> j + 1, k |-> 0])}
              ELSE LET r == Process(p, C.st, <<1000>>, x.strat)
                   IN {Pc([C EXCEPT !.st = [r.st EXCEPT !.drvs[d].procs[j] = r.x]], d, [at |-> "pass", j |-> j + 1, k |-> 0])}

(* --------------------------------- histories -------------------------------- *)
Micro(C) == UNION {CallStep(C, t) : t \in DOMAIN C.pend} \cup UNION {DriverStep(C, d) : d \in DOMAIN C.st.drvs}
MatchesLin(e, o) ==
  /\ o.ok
  /\ CASE e.k = "qs" -> ~e.rx \/ (IF e.what = "size" THEN e.size = o.size ELSE e.b = o.b)
       [] e.k = "ans" -> "err" \in DOMAIN o /\ o.err = e.err /\ (~e.err => SameItems(e.s, o.s))
       [] OTHER -> MatchesSys(e, o, TRUE)
(* What was seen at the end of the history says what need not be followed up:     *)
(* G.logs: recorder rec was told order, and all of it came through tx (whole: all *)
(* that was sent was told at last); G.ans: the answers that requests got.         *)
Fits1(C, G) ==
  /\ \A j \in 1..Len(G.logs) :
       LET g == G.logs[j] IN
       g.tx \notin DOMAIN C.st.chans \/
       LET lg == LogOf(C.st.logs, g.rec)
           q == SelectSeq(C.st.chans[g.tx].q, LAMBDA m : m.k = "obs")
           a == [k \in 1..Len(lg) |-> lg[k].l] \o [k \in 1..Len(q) |-> q[k].o.l]
       IN /\ Len(lg) <= Len(g.order)
          /\ g.whole => Len(a) <= Len(g.order)
          /\ \A k \in 1..Len(a) : k <= Len(g.order) => a[k] = g.order[k]
  /\ \A j \in 1..Len(G.ans) : G.ans[j].t \in DOMAIN C.ans => MatchesLin(C.ans[G.ans[j].t], G.ans[j].res)
RECURSIVE Close(_, _, _)
Close(S, new, G) == IF new = {} THEN S ELSE LET n == {C \in (UNION {Micro(C) : C \in new}) \ S : Fits1(C, G)} IN Close(S \cup n, n, G)
Call(S, t, op) == {[C EXCEPT !.pend = (t :> [op |-> op, ph |-> "called"]) @@ @] : C \in S}
Return(S, t, res, G) ==
  LET all == {C \in Close(S, S, G) : C.pend[t].ph = "done"}
  IN [fit |-> {[C EXCEPT !.pend = Without(@, t)] : C \in {D \in all : MatchesLin(D.pend[t].res, res)}}, exp |-> {C.pend[t].res : C \in all}]
\* R: [S, at (0: explained so far), exp]
Event(R, e, n, G) ==
  IF R.at # 0 THEN R
  ELSE IF e.e = "inv" THEN [R EXCEPT !.S = Call(@, e.t, e.op)]
  ELSE IF e.e = "stuck" THEN [R EXCEPT !.at = n, !.exp = {"the calls return"}]
  ELSE LET r == IF e.e = "res" THEN Return(R.S, e.t, e.res, G) ELSE Return(Call(R.S, 99, e.op), 99, e.res, G)
       IN IF r.fit = {} THEN [R EXCEPT !.at = n, !.exp = r.exp] ELSE [R EXCEPT !.S = r.fit]
Explain(h, G) == FoldLeft(LAMBDA R, n : Event(R, h[n], n, G), [S |-> {[st |-> InitSt, pend |-> <<>>, ans |-> <<>>]}, at |-> 0, exp |-> {}], [n \in 1..Len(h) |-> n])

Init == i = 1 /\ bad = 0
Step ==
  /\ i <= Len(Trace)
  /\ i' = i + 1
  /\ LET R == Explain(Trace[i].h, Trace[i].g)
     IN IF R.at = 0 THEN bad' = bad
        ELSE PrintT(<<"UNEXPLAINED", i, R.at, ToJson(R.exp)>>) /\ bad' = bad + 1
Finish == i = Len(Trace) + 1 /\ PrintT(<<"CHECKED", i - 1, bad>>) /\ i' = i + 1 /\ UNCHANGED bad
Next == Step \/ Finish
Spec == Init /\ [][Next]_vars
=============================================================================
