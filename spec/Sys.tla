-------------------------------- MODULE Sys --------------------------------
(* The library used by several threads: drivers (src/driver.rs), attached    *)
(* mounts (src/attached_mount.rs), senders that wait for room, requests for  *)
(* snapshots. Steps(st, op) is the set of all [st, res] that an operation    *)
(* may lead to.                                                              *)
(*                                                                           *)
(* A driver has a thread of its own. It goes through iterations: it ends if  *)
(* nobody holds a handle any more; it carries out commands in the order they *)
(* were given (one, or all there are); unless paused it makes a pass  *)
(* over everything attached. It then sleeps, unless there was much to do.    *)
(* The thread stops at gates: "sleep", and "p:id" / "s:id" when it is about  *)
(* to process or show the probe id.                                          *)
(*                                                                           *)
(* Driver: [d (name, texts, mx), cmds, paused, strat, procs, snaps, met, pc, auto] *)
(*   pc: [at |-> "sleep"], [at |-> "pass", j, out, t0], [at |-> "put", j, t, into, all] *)
EXTENDS Metrix

(* ----------------------- the driver's own instruments ----------------------- *)
Plain1(k, n) == [k |-> k, n |-> n, ti |-> <<>>, de |-> <<>>]
MeterDef(n) == Plain1("meter", n) @@ [r1 |-> TRUE, r5 |-> FALSE, r15 |-> FALSE, cutf |-> <<>>]
HistoDef(n) == Plain1("histo", n) @@ [unit |-> "us", limit |-> <<>>, reset |-> TRUE, show |-> TRUE]
MetAdp(d, now) == [k |-> "adp", f |-> NoFilter, m |-> NoMod, i |-> NewInstr(d, now)]
WildGroup(n) == [k |-> "wild", n |-> n, t |-> "g"]
MetNames == <<"collections_per_second", "observations_processed_per_second", "observations_processed_per_collection",
              "observations_dropped_per_second", "observations_dropped_per_collection", "observations_enqueued",
              "instruments_updated_per_second", "snapshots_per_second", "dropped_observations_alarm", "inactivity_alarm">>
NewMet(mx, now) ==
  IF mx = "full"
  THEN [j \in 1..10 |-> MetAdp(CASE j \in {1, 2, 4, 7, 8} -> MeterDef(MetNames[j])
                                 [] j \in {3, 5} -> HistoDef(MetNames[j])
                                 [] j = 6 -> Plain1("gauge", MetNames[j]) @@ [unit |-> "us", group |-> TRUE, track |-> 60, init |-> <<>>]
                                 [] j = 9 -> Plain1("stair", MetNames[j]) @@ [dur |-> <<60000>>, inv |-> FALSE, alt |-> <<>>]
                                 [] j = 10 -> Plain1("nonocc", MetNames[j]) @@ [dur |-> <<60000>>, inv |-> FALSE, alt |-> <<>>], now)]
       \* times depend on the speed of the machine
       \o <<WildGroup("collection_times_us"), WildGroup("snapshots_times_us"),
            WildGroup("iteration_update_ratio_per_mille"), WildGroup("iteration_update_ratio_per_mille_histo")>>
  ELSE <<>>
Upd1(met, j, u, now) == [met EXCEPT ![j].i = UpdInstr(@, u, now).i]
One == [k |-> "1"]
Many(n) == [k |-> "n", c |-> WInt(n)]
Val(n) == [k |-> "v", v |-> [t |-> "u", x |-> WInt(n)]]
MetAfterPass(met, out, now) ==
  IF met = <<>> THEN met
  ELSE LET m1 == Upd1(met, 1, One, now)
           m2 == IF out.p > 0 THEN Upd1(Upd1(m1, 2, Many(out.p), now), 3, Val(out.p), now) ELSE m1
           m3 == Upd1(m2, 6, Val(out.q), now)
           m4 == IF out.d > 0 THEN Upd1(Upd1(Upd1(m3, 4, Many(out.d), now), 5, Val(out.d), now), 9, One, now) ELSE m3
           m5 == IF out.u > 0 THEN Upd1(m4, 7, Many(out.u), now) ELSE m4
       IN IF out.p + out.d > 0 THEN Upd1(m5, 10, One, now) ELSE m5
MetAfterSnapshot(met, now) == IF met = <<>> THEN met ELSE Upd1(met, 8, One, now)
PutMetrics(d, into, E) ==
  IF d.d.mx = "wild" THEN Append(into, [n |-> "_metrix", v |-> [t |-> "wild", k |-> "g"]])
  ELSE IF d.d.mx = "full" THEN Append(into, Group("_metrix", PutAnyAll(d.met, 1, <<>>, E)))
  ELSE into

(* ---------------------------------- handles --------------------------------- *)
NamedHandles(st, id) == {h \in DOMAIN st.hs : st.hs[h] = id}
\* a synchronous request holds a handle until it is answered
SyncPending(st, id) == {t \in DOMAIN st.tix : st.tix[t].drv = id /\ st.tix[t].sync}
Alive(st, id) == NamedHandles(st, id) # {} \/ SyncPending(st, id) # {}

\* everything below a component
RECURSIVE Below(_, _)
Below(st, x) ==
  {x} \cup (IF x.k = "mount" THEN UNION {Below(st, x.kids[j]) : j \in 1..Len(x.kids)}
            ELSE IF x.k = "amount" THEN UNION {Below(st, x.kids[j]) : j \in 1..Len(x.kids)}
                                        \cup UNION {Below(st, st.achans[x.ch].q[j]) : j \in 1..Len(st.achans[x.ch].q)}
            ELSE {})
SeqUnion(q, f(_)) == UNION {f(q[j]) : j \in 1..Len(q)}
CmdNodes(c) == IF c.k \in {"proc", "snap"} THEN {c.x} ELSE {}
OwnedBy(st, id) ==
  LET d == st.drvs[id]
  IN SeqUnion(d.procs, LAMBDA x : Below(st, x)) \cup SeqUnion(d.cmds, LAMBDA c : UNION {Below(st, x) : x \in CmdNodes(c)})
     \cup SeqUnion(d.snaps, LAMBDA x : {x})
\* what becomes of channels when components are gone for good
CloseAll(st, nodes) ==
  LET cs == {x.ch : x \in {y \in nodes : y.k = "proc"}}
      as == {x.ch : x \in {y \in nodes : y.k = "amount"}}
  IN [st EXCEPT !.chans = [c \in DOMAIN @ |-> IF c \in cs THEN [@[c] EXCEPT !.rx = FALSE, !.q = <<>>] ELSE @[c]],
                !.achans = [c \in DOMAIN @ |-> IF c \in as THEN [@[c] EXCEPT !.rx = FALSE, !.q = <<>>] ELSE @[c]],
                !.rel = @ \cup {x.id : x \in {y \in nodes : y.k = "probe"}}]
\* the handles that are themselves attached
HandleNodes(nodes) == {x.h : x \in {y \in nodes : y.k = "drv"}}
\* the driver ends: R = [st, rel]: what it owned is released, and so on for the
\* drivers it held the last handle to
RECURSIVE EndDriver(_, _)
EndDriver(st, id) ==
  LET nodes == OwnedBy(st, id)
      st1 == CloseAll(st, nodes)
      hs == HandleNodes(nodes)
  IN [st |-> [st1 EXCEPT !.drvs = Without(@, id), !.hs = [h \in (DOMAIN @) \ hs |-> @[h]],
                         !.tix = [t \in {t \in DOMAIN @ : @[t].drv # id} |-> @[t]]],
      gone |-> {t \in DOMAIN st.tix : st.tix[t].drv = id /\ ~st.tix[t].left}]

(* What probes are asked to show is recorded, too. *)
RECURSIVE Shown(_, _)
Shown(x, st) ==
  CASE x.k = "probe" -> {x.id}
    [] x.k \in {"mount", "amount"} -> IF x.d.limit # <<>> /\ Exceeds(x.d.limit[1], st.now - x.last) THEN {} ELSE SeqUnion(x.kids, LAMBDA y : Shown(y, st))
    [] x.k = "drv" -> LET d == st.drvs[x.id] IN SeqUnion(d.procs, LAMBDA y : Shown(y, st)) \cup SeqUnion(d.snaps, LAMBDA y : Shown(y, st))
    [] OTHER -> {}
LogShown(st, ids, desc) ==
  IF ids = {} THEN st
  ELSE [st EXCEPT !.plog = [i \in (DOMAIN @) \cup ids |->
          LET old == IF i \in DOMAIN @ THEN @[i] ELSE <<>> IN IF i \in ids THEN Append(old, [k |-> "s", d |-> desc]) ELSE old]]

(* --------------------------------- iterations -------------------------------- *)
(* W: [st, ans (sequence of [t, err, s]), at (gate or ""), all]                 *)
(* all: whether this iteration carries out all commands there are              *)
SetD(W, id, f(_)) == [W EXCEPT !.st.drvs[id] = f(@)]
Stop(W, id, pc, at) == {[W EXCEPT !.st.drvs[id].pc = pc, !.at = at]}
RECURSIVE Iter(_, _), TakeOne(_, _), AfterCmds(_, _), AfterTake(_, _), PassFrom(_, _, _, _, _, _), PutFrom(_, _, _, _, _, _)
Iter(W, id) ==
  LET ended == LET r == EndDriver(W.st, id)
               IN {[W EXCEPT !.st = r.st, !.at = "ended",
                             !.ans = @ \o SetToSeq({[t |-> t, err |-> TRUE, s |-> <<>>] : t \in r.gone})]}
      going == LET n == Len(W.st.drvs[id].cmds)
               IN IF n = 0 THEN AfterCmds(W, id)
                  ELSE TakeOne([W EXCEPT !.all = FALSE], id) \cup (IF n > 1 THEN TakeOne([W EXCEPT !.all = TRUE], id) ELSE {})
  IN IF Alive(W.st, id) THEN going
     \* the one who just got an answer may still hold a handle
     ELSE IF \E j \in 1..Len(W.ans) : W.ans[j].sync /\ ~W.ans[j].err THEN ended \cup going
     ELSE ended
TakeOne(V, id) ==
  LET c == V.st.drvs[id].cmds[1]
      W == SetD(V, id, LAMBDA d : [d EXCEPT !.cmds = Tail(@)])
  IN CASE c.k = "proc" -> AfterTake(SetD(W, id, LAMBDA d : [d EXCEPT !.procs = Append(@, c.x)]), id)
       [] c.k = "snap" -> AfterTake(SetD(W, id, LAMBDA d : [d EXCEPT !.snaps = Append(@, c.x)]), id)
       [] c.k = "strat" -> AfterTake(SetD(W, id, LAMBDA d : [d EXCEPT !.strat = c.st]), id)
       [] c.k = "pause" -> AfterTake(SetD(W, id, LAMBDA d : [d EXCEPT !.paused = TRUE]), id)
       [] c.k = "resume" -> AfterTake(SetD(W, id, LAMBDA d : [d EXCEPT !.paused = FALSE]), id)
       [] c.k = "req" ->
            LET d == W.st.drvs[id].d
                desc == W.st.tix[c.t].d
            IN PutFrom(W, id, 1, c.t, IF desc THEN AddText(AddText(<<>>, "_title", d.ti), "_description", d.de) ELSE <<>>, FALSE)
AfterTake(W, id) == IF W.all /\ W.st.drvs[id].cmds # <<>> THEN TakeOne(W, id) ELSE AfterCmds(W, id)
\* shows the processors from the j-th on; through: the gate of the j-th was passed
PutFrom(W, id, j, t, into, through) ==
  LET d == W.st.drvs[id]
      desc == W.st.tix[t].d
  IN IF j <= Len(d.procs)
     THEN LET x == d.procs[j]
          IN IF x.k = "probe" /\ ~through
             THEN LET V == [W EXCEPT !.st = LogPass(@, x.id, [k |-> "s", d |-> desc])]
                  IN IF x.gs THEN Stop(V, id, [at |-> "put", j |-> j, t |-> t, into |-> into, all |-> W.all], "s:" \o x.id)
                     ELSE PutFrom(V, id, j, t, into, TRUE)
             ELSE PutFrom(IF x.k = "probe" THEN W ELSE [W EXCEPT !.st = LogShown(@, Shown(x, @), desc)],
                          id, j + 1, t, PutAny(x, into, EnvOf(W.st, desc)), FALSE)
     ELSE LET b == PutAnyAll(d.snaps, 1, into, EnvOf(W.st, desc))
              W2 == SetD(W, id, LAMBDA e : [e EXCEPT !.met = MetAfterSnapshot(@, W.st.now)])
              sh == SeqUnion(d.snaps, LAMBDA x : Shown(x, W.st))
              c == PutMetrics(W2.st.drvs[id], b, EnvOf(W2.st, desc))
              s == IF d.d.n = <<>> THEN c ELSE <<Group(d.d.n[1], c)>>
              W3 == [W2 EXCEPT !.ans = IF W.st.tix[t].left THEN @ ELSE Append(@, [t |-> t, err |-> FALSE, s |-> s, sync |-> W.st.tix[t].sync]),
                                     !.st = [LogShown(@, sh, desc) EXCEPT !.tix = Without(@, t)]]
          IN AfterTake(W3, id)
AfterCmds(W, id) ==
  IF W.st.drvs[id].paused THEN Stop(W, id, [at |-> "sleep"], "sleep")
  ELSE PassFrom(W, id, 1, ZeroOut, FALSE, W.st.now)
\* t0: when the pass began
PassFrom(W, id, j, out, through, t0) ==
  LET d == W.st.drvs[id]
  IN IF j <= Len(d.procs)
     THEN LET x == d.procs[j]
          IN IF x.k = "probe" /\ x.gp /\ ~through
             THEN Stop([W EXCEPT !.st = LogPass(@, x.id, [k |-> "p", st |-> ShownStrategy(d.strat)])], id, [at |-> "pass", j |-> j, out |-> out, t0 |-> t0], "p:" \o x.id)
             ELSE IF x.k = "probe" /\ x.gp
             THEN PassFrom(W, id, j + 1, AddOut(out, ProbeOut(x, PassesOf(W.st, x.id))), FALSE, t0)
             ELSE LET r == Process(x, W.st, <<1000>>, d.strat)
                  IN PassFrom([W EXCEPT !.st = [r.st EXCEPT !.drvs[id].procs[j] = r.x]], id, j + 1, AddOut(out, r.out), FALSE, t0)
     ELSE LET W2 == SetD(W, id, LAMBDA e : [e EXCEPT !.met = MetAfterPass(@, out, W.st.now)])
          IN \* no rest after a pass that was long or found much to do
          IF out.d > 0 \/ out.p > 100 \/ W.st.now - t0 >= 10 THEN Iter(W2, id) ELSE Stop(W2, id, [at |-> "sleep"], "sleep")
Resume(W, id) ==
  IF id \notin DOMAIN W.st.drvs THEN {[W EXCEPT !.at = "ended"]}
  ELSE LET pc == W.st.drvs[id].pc
       IN CASE pc.at = "sleep" -> Iter(W, id)
            [] pc.at = "pass" -> PassFrom(W, id, pc.j, pc.out, TRUE, pc.t0)
            [] pc.at = "put" -> PutFrom([W EXCEPT !.all = pc.all], id, pc.j, pc.t, pc.into, TRUE)
RECURSIVE ResumeN(_, _, _)
ResumeN(Ws, id, n) == IF n = 0 THEN Ws ELSE ResumeN(UNION {Resume([W EXCEPT !.at = ""], id) : W \in Ws}, id, n - 1)
Fresh(st) == [st |-> st, ans |-> <<>>, at |-> "", all |-> FALSE]

(* Drivers that run by themselves ("auto") come to rest after every operation: *)
(* nothing is left to do for them.                                             *)
Autos(st) == {id \in DOMAIN st.drvs : st.drvs[id].auto}
RECURSIVE Rest(_, _)
\* one outcome is enough: all ways of getting there show the same
RestOne(W, id) == CHOOSE V \in ResumeN({W}, id, 4) : TRUE
Rest(W, ids) == IF ids = {} THEN W ELSE LET id == CHOOSE x \in ids : TRUE IN Rest(RestOne(W, id), ids \ {id})

(* ------------------------------ blocked senders ------------------------------ *)
Blocked(st, c) == IF c \in DOMAIN st.blk THEN st.blk[c] ELSE {}
Room(st, c) == st.chans[c].rx /\ ~Full(st.chans[c])
Enter(st, c, e) == [st EXCEPT !.chans[c].q = Append(@, e.m), !.blk[c] = @ \ {e}, !.bdone = @ \cup {e.b}]
RECURSIVE SettleCh(_, _)
SettleCh(st, c) ==
  IF Blocked(st, c) = {} THEN {st}
  ELSE IF ~st.chans[c].rx THEN {[st EXCEPT !.bdone = @ \cup {e.b : e \in st.blk[c]}, !.blk[c] = {}]}
  ELSE IF Room(st, c) THEN UNION {SettleCh(Enter(st, c, e), c) : e \in Blocked(st, c)}
  ELSE {st}
RECURSIVE SettleAll(_, _)
SettleAll(S, cs) == IF cs = {} THEN S ELSE LET c == CHOOSE x \in cs : TRUE IN SettleAll(UNION {SettleCh(s, c) : s \in S}, cs \ {c})
Settled(st) == IF DOMAIN st.blk = {} THEN {st} ELSE SettleAll({st}, DOMAIN st.blk)
\* processing while senders wait: they enter as soon as there is room
Coming(st, c) == IF Blocked(st, c) = {} \/ ~st.chans[c].rx THEN 0
                 ELSE LET free == st.chans[c].cap[1] - Len(st.chans[c].q) n == Cardinality(Blocked(st, c)) IN IF n < free THEN n ELSE free
RECURSIVE TakeB(_, _, _, _, _)
\* the set of all [st, R, q]
TakeB(st, c, n, R, s) ==
  LET q == st.chans[c].q
      enter == IF Room(st, c) THEN UNION {TakeB(Enter(st, c, e), c, n, R, s) : e \in Blocked(st, c)} ELSE {}
      \* a queue without any room: messages are handed over directly
      direct == n > 0 /\ st.chans[c].cap = <<0>> /\ st.chans[c].rx /\ Blocked(st, c) # {}
      hand(e) == LET r == TakeMsg(e.m, [R EXCEPT !.A.chans = st.chans], s, st.now)
                 IN TakeB([st EXCEPT !.chans = r.A.chans, !.blk[c] = @ \ {e}, !.bdone = @ \cup {e.b}], c, n - 1, r, s)
      take == IF direct THEN UNION {hand(e) : e \in Blocked(st, c)}
              ELSE IF n > 0 /\ q # <<>>
              THEN LET r == TakeMsg(q[1], [R EXCEPT !.A.chans = [st.chans EXCEPT ![c].q = Tail(@)]], s, st.now)
                   IN TakeB([st EXCEPT !.chans = r.A.chans], c, n - 1, r, s)
              \* those who wait enter even while the number of waiting messages is read
              ELSE {[st |-> st, R |-> R, q |-> Len(q) + k] : k \in 0..Coming(st, c)}
  IN enter \cup take
ProcessB(x, st, max, s) ==
  {[x |-> [x EXCEPT !.kids = y.R.kids, !.last = IF y.R.p + y.R.d > 0 THEN st.now ELSE @],
    st |-> [y.st EXCEPT !.logs = y.R.A.logs],
    out |-> [p |-> y.R.p, d |-> y.R.d, u |-> y.R.A.n, q |-> y.q]]
   : y \in TakeB(st, x.ch, IF max = <<>> THEN 1000 ELSE max[1], [kids |-> x.kids, p |-> 0, d |-> 0, A |-> NoA(st)], s)}

(* -------------------------------- operations --------------------------------- *)
DrvOps == {"dnew", "dclone", "ddrop", "dstep", "dpause", "dresume", "dstrat", "dreq", "dcancel", "drel", "plog", "put", "aclone", "adrop", "bsend", "bstat"}
Cmd(st, h, c) == [st EXCEPT !.drvs[st.hs[h]].cmds = Append(@, c)]
\* a new component under a driver (h), an attached mount (a) or a mount (id)
PutUnder(st, op, node) ==
  IF "h" \in DOMAIN op THEN Cmd(st, op.h, [k |-> IF node.k \in SnapKinds \/ ("as" \in DOMAIN op /\ op.as = "snap") THEN "snap" ELSE "proc", x |-> node])
  ELSE IF "a" \in DOMAIN op
  THEN LET c == st.atts[op.a]
       IN IF st.achans[c].rx THEN [st EXCEPT !.achans[c].q = Append(@, node)]
          ELSE \* nobody is there any more: the component is gone, too
               CloseAll(st, Below(st, node))
  ELSE [st EXCEPT !.objs[op.id].kids = Append(@, node)]
NoDrv(st, id) == id \notin DOMAIN st.drvs
R1(st, res) == {[st |-> st, res |-> res]}
DrvStep(st, op) ==
  CASE op.op = "dnew" ->
         R1([st EXCEPT !.drvs = (op.id :> [d |-> op.x, cmds |-> <<>>, paused |-> FALSE, strat |-> op.x.st, procs |-> <<>>, snaps |-> <<>>,
                                           \* the first iteration is made at once
                                           met |-> MetAfterPass(NewMet(op.x.mx, st.now), ZeroOut, st.now), pc |-> [at |-> "sleep"], auto |-> op.x.auto]) @@ @,
                       !.hs = (op.h :> op.id) @@ @],
            [k |-> "dnew", own |-> op.x.n, ti |-> op.x.ti, de |-> op.x.de])
    [] op.op = "dclone" -> R1([st EXCEPT !.hs = (op.to :> st.hs[op.h]) @@ @], Plain)
    [] op.op = "ddrop" -> R1([st EXCEPT !.hs = Without(@, op.h)], Plain)
    [] op.op = "dpause" -> R1(Cmd(st, op.h, [k |-> "pause"]), Plain)
    [] op.op = "dresume" -> R1(Cmd(st, op.h, [k |-> "resume"]), Plain)
    [] op.op = "dstrat" -> R1(Cmd(st, op.h, [k |-> "strat", st |-> op.st]), Plain)
    [] op.op = "dreq" ->
         R1(Cmd([st EXCEPT !.tix = (op.t :> [drv |-> st.hs[op.h], d |-> op.d, sync |-> op.sync, left |-> FALSE]) @@ @], op.h, [k |-> "req", t |-> op.t]), Plain)
    [] op.op = "dstep" ->
         {[st |-> [W.st EXCEPT !.rel = {}], res |-> [k |-> "dstep", at |-> W.at, ans |-> W.ans, rel |-> W.st.rel]] : W \in ResumeN({Fresh(st)}, op.id, op.times)}
    \* the one who asked does not wait any more: the answer is made, but nobody gets it
    [] op.op = "dcancel" -> R1([st EXCEPT !.tix = [t \in DOMAIN @ |-> IF t = op.t THEN [@[t] EXCEPT !.left = TRUE] ELSE @[t]]], Plain)
    [] op.op = "drel" -> R1([st EXCEPT !.rel = {}], [k |-> "drel", rel |-> st.rel])
    [] op.op = "plog" -> R1(st, [k |-> "plog", log |-> IF op.id \in DOMAIN st.plog THEN st.plog[op.id] ELSE <<>>])
    [] op.op = "put" ->
         (CASE op.what = "probe" -> R1(PutUnder(st, op, op.x), Plain)
           [] op.what = "snap" -> R1(PutUnder(st, op, op.x), Plain)
           [] op.what = "obj" -> R1([PutUnder(st, op, st.objs[op.child]) EXCEPT !.objs = Without(@, op.child)], Plain)
           [] op.what = "drv" ->
                R1(PutUnder([st EXCEPT !.hs = ("@" \o op.child :> st.hs[op.child]) @@ Without(@, op.child)], op,
                            [k |-> "drv", id |-> st.hs[op.child], h |-> "@" \o op.child]), Plain)
           [] op.what = "amount" ->
                LET m == st.objs[op.child]
                    st1 == [st EXCEPT !.objs = Without(@, op.child), !.achans = (op.to :> [q |-> <<>>, rx |-> TRUE]) @@ @, !.atts = (op.to :> op.to) @@ @]
                IN R1(PutUnder(st1, op, [m EXCEPT !.k = "amount"] @@ [ch |-> op.to]), Plain))
    [] op.op = "aclone" -> R1([st EXCEPT !.atts = (op.to :> st.atts[op.a]) @@ @], Plain)
    [] op.op = "adrop" -> R1([st EXCEPT !.atts = Without(@, op.a)], Plain)
    [] op.op = "bsend" ->
         LET c == st.txs[op.tx]
             m == IF "c" \in DOMAIN op THEN op.c @@ [at |-> st.now] ELSE ObsMsg(ObsOf(op.o, st.now))
         IN IF ~st.chans[c].rx \/ ~st.chans[c].block \/ ~Full(st.chans[c]) THEN R1(Enqueue(st, op.tx, m), [k |-> "bsend", done |-> TRUE])
            ELSE R1([st EXCEPT !.blk = (c :> (Blocked(st, c) \cup {[b |-> op.b, m |-> m]})) @@ @], [k |-> "bsend", done |-> FALSE])
    [] op.op = "bstat" -> R1([st EXCEPT !.bdone = {}], [k |-> "bstat", done |-> st.bdone])

\* what the drivers that run by themselves answered meanwhile: kept in "ready"
Steps(st, op) ==
  LET base == IF op.op \in DrvOps THEN DrvStep(st, op)
              ELSE IF op.op = "process" /\ st.objs[op.id].k = "proc" /\ Blocked(st, st.objs[op.id].ch) # {}
              THEN {[st |-> [r.st EXCEPT !.objs[op.id] = r.x], res |-> [k |-> "out", o |-> r.out]] : r \in ProcessB(st.objs[op.id], st, op.max, op.st)}
              ELSE IF op.op = "drop"
              THEN LET r == Apply(st, op) ns == Below(st, st.objs[op.id])
                   IN {[st |-> [CloseAll(r.st, ns) EXCEPT !.hs = [h \in (DOMAIN @) \ HandleNodes(ns) |-> @[h]]], res |-> r.res]}
              ELSE IF op.op = "snap" THEN {[Apply(st, op) EXCEPT !.st = LogShown(@, Shown(st.objs[op.id], st), op.d)]}
              ELSE {Apply(st, op)}
      rested(r) == IF Autos(r.st) = {} THEN r ELSE [r EXCEPT !.st = Rest(Fresh(@), Autos(r.st)).st]
  IN UNION {LET q == rested(r) IN {[st |-> s, res |-> q.res] : s \in Settled(q.st)} : r \in base}

(* ------------------------------ results observed ------------------------------ *)
SameAnswers(e, o) ==
  /\ Len(e) = Len(o)
  /\ \A i \in 1..Len(e) : \E j \in 1..Len(o) :
       /\ o[j].t = e[i].t /\ o[j].err = e[i].err
       /\ (~e[i].err => SameItems(e[i].s, o[j].s))
ToSet1(q) == {q[j] : j \in 1..Len(q)}
SamePlog(e, o) ==
  /\ Len(e) = Len(o)
  /\ \A j \in 1..Len(e) : e[j].k = o[j].k /\ (IF e[j].k = "s" THEN e[j].d = o[j].d ELSE e[j].st = o[j].st)
MatchesSys(e, o, chkn) ==
  /\ o.ok
  /\ CASE e.k = "dnew" -> e.own = o.own /\ e.ti = o.ti /\ e.de = o.de
       [] e.k = "dstep" -> e.at = o.at /\ SameAnswers(e.ans, o.ans) /\ e.rel = ToSet1(o.rel)
       [] e.k = "drel" -> e.rel = ToSet1(o.rel)
       [] e.k = "plog" -> SamePlog(e.log, o.log)
       [] e.k = "bsend" -> e.done = o.done
       [] e.k = "bstat" -> e.done = ToSet1(o.done)
       [] OTHER -> Matches(e, o, chkn)
=============================================================================
