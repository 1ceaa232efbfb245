------------------------------- MODULE Metrix -------------------------------
(* The library as a whole, used by one thread: transmitters, queues,         *)
(* processors, mounts, direct use of components, lookups, conversions.       *)
(* Apply(st, op) is the next state and the result of one operation.          *)
(* src/lib.rs, src/processor.rs, src/snapshot.rs.                            *)
EXTENDS Comp

\* achans, plog, ...: attached mounts, probes and drivers, see Sys.tla
InitSt == [now |-> 0, objs |-> <<>>, txs |-> <<>>, chans |-> <<>>, cells |-> <<>>, logs |-> <<>>,
           achans |-> <<>>, atts |-> <<>>, plog |-> <<>>, drvs |-> <<>>, hs |-> <<>>, tix |-> <<>>, blk |-> <<>>, bdone |-> {}, rel |-> {}]

(* ------------------------------ construction ------------------------------- *)
RECURSIVE BuildAny(_, _)
BuildAny(d, now) ==
  CASE d.k = "proc" ->
         [k |-> "proc", d |-> d, ch |-> d.tx, last |-> now,
          kids |-> UniqueKids([j \in 1..Len(d.items) |-> BuildC(d.items[j].x, now)], <<>>)]
    [] d.k = "mount" -> [k |-> "mount", d |-> d, last |-> now, kids |-> [j \in 1..Len(d.items) |-> BuildAny(d.items[j].x, now)]]
    [] d.k = "cockpit" -> BuildC(d, now)
    [] OTHER -> Build(d, now)
\* the definitions of all processors in a definition
RECURSIVE Procs(_)
Procs(d) == IF d.k = "proc" THEN {d} ELSE IF d.k = "mount" THEN UNION {Procs(d.items[j].x) : j \in 1..Len(d.items)} ELSE {}
RECURSIVE ChansOf(_)
ChansOf(x) == IF x.k = "proc" THEN {x.ch} ELSE IF x.k \in {"mount", "amount"} THEN UNION {ChansOf(x.kids[j]) : j \in 1..Len(x.kids)} ELSE {}

NewObj(st, id, d) ==
  LET ps == Procs(d)
      ch(p) == [q |-> <<>>, cap |-> p.cap, block |-> p.block, rx |-> TRUE]
      names == {p.tx : p \in ps}
  IN [st EXCEPT !.objs = (id :> BuildAny(d, st.now)) @@ @,
                !.chans = [n \in names |-> ch(CHOOSE p \in ps : p.tx = n)] @@ @,
                !.txs = [n \in names |-> n] @@ @]

(* --------------------------------- sending --------------------------------- *)
\* (a blocking sender is only modelled here when there is room; see Sys.tla)
Enqueue(st, tx, m) == [st EXCEPT !.chans = EnqueueTo(@, st.txs[tx], m)]
\* n observations in a row, the j-th with the count j
Burst(st, op) ==
  LET c == st.txs[op.tx]
      ch == st.chans[c]
      fit == IF ~ch.rx THEN 0 ELSE IF ch.cap = <<>> THEN op.n ELSE IF op.n <= ch.cap[1] - Len(ch.q) THEN op.n ELSE ch.cap[1] - Len(ch.q)
      m(j) == [k |-> "obs", o |-> [l |-> op.l, u |-> [k |-> "n", c |-> WInt(j)], ts |-> st.now]]
  IN [st EXCEPT !.chans[c].q = @ \o [j \in 1..fit |-> m(j)]]
ObsOf(o, now) == [l |-> o.l, u |-> UpdateOf(o), ts |-> now + o.ts]

(* -------------------------------- processing -------------------------------- *)
Rejects(s, o, now) ==
  CASE s.k = "all" -> FALSE
    [] s.k = "none" -> TRUE
    [] OTHER -> LET age == IF s.k = "default" THEN 30000 ELSE s.age
                    dd == IF s.k = "default" THEN FALSE ELSE s.dd
                IN Exceeds(age, now - o.ts) /\ (dd \/ ~(o.u.k = "v" /\ IsDelta(o.u.v)))
Panels(kids, n, f(_)) ==
  \* the cockpit of the name
  LET js == {j \in 1..Len(kids) : kids[j].k = "cockpit" /\ NameOf(kids[j]) = <<n>>}
  IN IF js = {} THEN kids ELSE LET j == CHOOSE j \in js : \A i \in js : j <= i IN [kids EXCEPT ![j].kids = f(@)]
Control(kids, m, now) ==
  CASE m.k = "add_handler" -> Append(kids, BuildC(m.x, m.at))
    [] m.k = "add_cockpit" -> AddUnique(kids, BuildC(m.x, m.at))
    [] m.k = "remove_cockpit" -> RemoveNamed(kids, "cockpit", m.n)
    [] m.k = "add_panel" -> Panels(kids, m.c, LAMBDA ks : AddUnique(ks, Build(m.x, m.at)))
    [] m.k = "remove_panel" -> Panels(kids, m.c, LAMBDA ks : RemoveNamed(ks, "panel", m.n))
\* one message; R: [kids, p, d, A]
TakeMsg(m, R, s, now) ==
  IF m.k # "obs" THEN [R EXCEPT !.kids = Control(@, m, now), !.p = @ + 1]
  ELSE IF Rejects(s, m.o, now) THEN [R EXCEPT !.d = @ + 1]
  ELSE LET r == ObserveAll(R.kids, 1, m.o, R.A, now) IN [R EXCEPT !.kids = r.x, !.p = @ + 1, !.A = r.A]
\* up to n messages of channel c (n < 0: as many as there are); what handlers
\* send meanwhile (echo) is in the channels at once
RECURSIVE Take(_, _, _, _, _)
Take(c, n, R, s, now) ==
  IF n = 0 \/ R.A.chans[c].q = <<>> THEN R
  ELSE Take(c, n - 1, TakeMsg(R.A.chans[c].q[1], [R EXCEPT !.A.chans[c].q = Tail(@)], s, now), s, now)
NoA(st) == [n |-> 0, logs |-> st.logs, chans |-> st.chans]
\* max: << >> no limit, <<n>>
\* what a probe is asked to do is recorded
PassesOf(st, id) == IF id \in DOMAIN st.plog THEN Len(SelectSeq(st.plog[id], LAMBDA e : e.k = "p")) ELSE 0
LogPass(st, id, e) == [st EXCEPT !.plog = (id :> Append(IF id \in DOMAIN @ THEN @[id] ELSE <<>>, e)) @@ @]
ShownStrategy(s) == IF s.k = "default" THEN [k |-> "age", age |-> 30000, dd |-> FALSE] ELSE s
ZeroOut == [p |-> 0, d |-> 0, u |-> 0, q |-> 0]
ProbeOut(x, n) == IF n <= Len(x.outs) THEN [p |-> x.outs[n][1], d |-> x.outs[n][2], u |-> x.outs[n][3], q |-> x.outs[n][4]] ELSE ZeroOut
AddOut(a, b) == [p |-> a.p + b.p, d |-> a.d + b.d, u |-> a.u + b.u, q |-> a.q + b.q]
RECURSIVE Process(_, _, _, _), ProcessAll(_, _, _, _, _, _)
Process(x, st, max, s) ==
  IF x.k = "proc"
  THEN LET r == Take(x.ch, IF max = <<>> THEN -1 ELSE max[1], [kids |-> x.kids, p |-> 0, d |-> 0, A |-> NoA(st)], s, st.now)
       IN [x |-> [x EXCEPT !.kids = r.kids, !.last = IF r.p + r.d > 0 THEN st.now ELSE @],
           st |-> [st EXCEPT !.chans = r.A.chans, !.logs = r.A.logs],
           out |-> [p |-> r.p, d |-> r.d, u |-> r.A.n, q |-> Len(r.A.chans[x.ch].q)]]
  ELSE IF x.k \in {"mount", "amount"}
  THEN LET \* what was handed over to an attached mount comes first
           new == IF x.k = "amount" THEN st.achans[x.ch].q ELSE <<>>
           st0 == IF x.k = "amount" THEN [st EXCEPT !.achans[x.ch].q = <<>>] ELSE st
           r == ProcessAll(x.kids \o new, 1, st0, max, s, ZeroOut)
       IN [x |-> [x EXCEPT !.kids = r.x, !.last = IF r.out.p + r.out.d > 0 THEN st.now ELSE @], st |-> r.st, out |-> r.out]
  ELSE IF x.k = "probe"
  THEN [x |-> x, st |-> LogPass(st, x.id, [k |-> "p", st |-> ShownStrategy(s)]), out |-> ProbeOut(x, PassesOf(st, x.id) + 1)]
  ELSE \* snapshooters; drivers, which do their work on their own
       [x |-> x, st |-> st, out |-> ZeroOut]
ProcessAll(xs, j, st, max, s, out) ==
  IF j > Len(xs) THEN [x |-> xs, st |-> st, out |-> out]
  ELSE LET r == Process(xs[j], st, max, s)
       IN ProcessAll([xs EXCEPT ![j] = r.x], j + 1, r.st, max, s,
                     AddOut(out, r.out))

(* -------------------------------- snapshots -------------------------------- *)
RECURSIVE PutAny(_, _, _), PutAnyAll(_, _, _, _)
MetricsOf(met, E) == Group("_metrix", PutAnyAll(met, 1, <<>>, E))
PutAny(x, into, E) ==
  CASE x.k = "proc" ->
         Level(x.d.n, into, LAMBDA lv : Body([ti |-> <<>>, de |-> <<>>, limit |-> x.d.limit], x.d.show, x.last, lv, E, LAMBDA b : PutAll(x.kids, 1, b, E)))
    [] x.k \in {"mount", "amount"} ->
         Level(x.d.n, into, LAMBDA lv : Body([ti |-> <<>>, de |-> <<>>, limit |-> x.d.limit], TRUE, x.last, lv, E, LAMBDA b : PutAnyAll(x.kids, 1, b, E)))
    [] x.k = "probe" -> Append(into, Num(x.n, WInt(PassesOf(E.st, x.id))))
    \* a driver within another hierarchy: (only drivers without metrics of their own are put there)
    [] x.k = "drv" -> LET d == E.st.drvs[x.id]
                      IN \* it makes the snapshot on its own
                         into \o Level(d.d.n, <<>>, LAMBDA lv :
                           PutAnyAll(d.snaps, 1, PutAnyAll(d.procs, 1, IF E.desc THEN AddText(AddText(lv, "_title", d.d.ti), "_description", d.d.de) ELSE lv, E), E))
    [] x.k = "wild" -> Append(into, [n |-> x.n, v |-> [t |-> "wild", k |-> x.t]])
    [] OTHER -> Put(x, into, E)
PutAnyAll(xs, j, into, E) == IF j > Len(xs) THEN into ELSE PutAnyAll(xs, j + 1, PutAny(xs[j], into, E), E)
EnvOf(st, desc) == [now |-> st.now, desc |-> desc, cells |-> st.cells, logs |-> st.logs, st |-> st]
SnapOf(st, x, desc) == PutAny(x, <<>>, EnvOf(st, desc))

(* --------------------------------- lookup ---------------------------------- *)
NonEmpty(segs) == SelectSeq(segs, LAMBDA x : x # "")
RECURSIVE FindFrom(_, _)
\* << >> or <<item>>
FindFrom(item, segs) ==
  IF segs = <<>> \/ item.t # "g" THEN <<item>>
  ELSE LET c == Pick(item.x, segs[1]) IN IF c = <<>> THEN <<>> ELSE FindFrom(c[1].v, Tail(segs))
Find(items, segs) == LET p == NonEmpty(segs) IN IF p = <<>> THEN <<>> ELSE FindFrom([t |-> "g", x |-> items], p)
FindThen(found, segs) == IF found = <<>> \/ found[1].t # "g" THEN <<>> ELSE Find(found[1].x, segs)
\* [r |-> "nf" | "nd" | "d", ns |-> nanoseconds]
AsDuration(found, unit) ==
  IF found = <<>> THEN [r |-> "nf"]
  ELSE IF found[1].t \in {"i", "u"} /\ found[1].x.s >= 0 THEN [r |-> "d", ns |-> WMulPow10(found[1].x, 9 - UnitExp[unit])]
  ELSE [r |-> "nd"]

(* ---------------------------------- json ----------------------------------- *)
\* of several items with one name the last one
RECURSIVE JsonItem(_, _), JsonItems(_, _)
JsonItem(v, bi) ==
  CASE v.t = "g" -> [t |-> "g", x |-> JsonItems(v.x, bi)]
    [] v.t = "b" -> IF bi THEN [t |-> "i", x |-> IF v.x THEN W1 ELSE W0] ELSE v
    [] v.t = "f" -> IF v.x.nf = "no" THEN v ELSE [t |-> "null", x |-> 0]
    [] OTHER -> v
JsonItems(q, bi) ==
  LET js == SelectSeq([j \in 1..Len(q) |-> j], LAMBDA j : \A i \in (j + 1)..Len(q) : q[i].n # q[j].n)
  IN [i \in 1..Len(js) |-> [n |-> q[js[i]].n, v |-> JsonItem(q[js[i]].v, bi)]]
\* o: [t |-> "g" | "num" (w: << >> or <<wide>>, f: float) | "s" | "b" | "null", x]
RECURSIVE SameJson(_, _), SameJsons(_, _)
SameJson(e, o) ==
  CASE e.t = "g" -> o.t = "g" /\ SameJsons(e.x, o.x)
    [] e.t \in {"i", "u"} -> o.t = "num" /\ o.w # <<>> /\ WEq(o.w[1], e.x)
    [] e.t = "f" -> o.t = "num" /\ (o.f.b = e.x.b \/ (o.f.sc.s = 0 /\ e.x.sc.s = 0 /\ o.f.zero /\ e.x.zero))
    [] OTHER -> o.t = e.t /\ o.x = e.x
SameJsons(a, b) ==
  /\ Len(a) = Len(b)
  /\ \A i \in 1..Len(a) : \E j \in 1..Len(b) : b[j].n = a[i].n /\ SameJson(a[i].v, b[j].v)

(* ------------------------------ one operation ------------------------------- *)
OptOf(c) == c
Sum(st, id) == Len(st.objs[id].kids)
Plain == [k |-> "ok"]
Without(f, n) == [x \in (DOMAIN f) \ {n} |-> f[x]]
Kids(x, ks) == SelectSeq(x.kids, LAMBDA y : y.k \in ks)
SnapKinds == {"cell", "const", "poll"}
RECURSIVE Direct(_, _, _)
Direct(x, c, now) ==
  CASE c.k = "set_name" -> [x EXCEPT !.d.n = <<c.n>>]
    \* the c.j-th panel (of a cockpit), c.c: what is done to it
    [] c.k = "nth" -> LET js == SelectSeq([j \in 1..Len(x.kids) |-> j], LAMBDA j : x.kids[j].k = "panel")
                      IN IF c.j > Len(js) THEN x ELSE [x EXCEPT !.kids[js[c.j]] = Direct(@, c.c, now)]
    [] c.k = "remove_panel" -> [x EXCEPT !.kids = RemoveNamed(@, "panel", c.n)]
    [] c.k = "add_cockpit" -> [x EXCEPT !.kids = AddUnique(@, BuildC(c.x, now))]
    [] c.k = "add_panel" -> [x EXCEPT !.kids = IF x.k = "cockpit" THEN AddUnique(@, Build(c.x, now)) ELSE Append(@, Build(c.x, now))]
    [] c.k \in {"add_handler", "add_snap"} -> [x EXCEPT !.kids = Append(@, BuildC(c.x, now))]

Apply(st, op) ==
  CASE op.op = "adv" -> [st |-> [st EXCEPT !.now = @ + op.ms], res |-> Plain]
    [] op.op = "new" -> [st |-> NewObj(st, op.id, op.x), res |-> Plain]
    [] op.op = "obs" ->
         LET r == Observe(st.objs[op.id], ObsOf(op.o, st.now), NoA(st), st.now)
         IN [st |-> [st EXCEPT !.objs[op.id] = r.x, !.logs = r.A.logs, !.chans = r.A.chans], res |-> [k |-> "n", n |-> r.A.n]]
    [] op.op = "snap" -> [st |-> st, res |-> [k |-> "snap", s |-> SnapOf(st, st.objs[op.id], op.d)]]
    [] op.op = "send" -> [st |-> Enqueue(st, op.tx, ObsMsg(ObsOf(op.o, st.now))), res |-> Plain]
    [] op.op = "burst" -> [st |-> Burst(st, op), res |-> Plain]
    [] op.op = "measure" ->
         \* nothing is sent for a start in the future
         [st |-> IF op.from > 0 THEN st
                 ELSE Enqueue(st, op.tx, ObsMsg([l |-> op.l, ts |-> st.now,
                        u |-> [k |-> "v", v |-> [t |-> "d", x |-> WMulPow10(WInt(-op.from), 6), u |-> "ns"]]])),
          res |-> Plain]
    [] op.op = "ctl" -> [st |-> Enqueue(st, op.tx, op.c @@ [at |-> st.now]), res |-> Plain]
    [] op.op = "clone" -> [st |-> [st EXCEPT !.txs = (op.to :> st.txs[op.tx]) @@ @], res |-> Plain]
    [] op.op = "droptx" -> [st |-> [st EXCEPT !.txs = Without(@, op.tx)], res |-> Plain]
    [] op.op = "q" ->
         LET c == st.chans[st.txs[op.tx]]
         IN [st |-> st, res |-> [k |-> "q", rx |-> c.rx, size |-> Len(c.q), full |-> Full(c), empty |-> c.q = <<>>, cap |-> c.cap]]
    [] op.op = "process" ->
         LET r == Process(st.objs[op.id], st, op.max, op.st)
         IN [st |-> [r.st EXCEPT !.objs[op.id] = r.x], res |-> [k |-> "out", o |-> r.out]]
    [] op.op = "direct" -> [st |-> [st EXCEPT !.objs[op.id] = Direct(@, op.c, st.now)], res |-> Plain]
    [] op.op = "attach" -> [st |-> [st EXCEPT !.objs = Without([@ EXCEPT ![op.id].kids = Append(@, st.objs[op.child])], op.child)], res |-> Plain]
    [] op.op = "drop" ->
         LET cs == ChansOf(st.objs[op.id])
         IN [st |-> [st EXCEPT !.objs = Without(@, op.id), !.chans = [c \in DOMAIN @ |-> IF c \in cs THEN [@[c] EXCEPT !.rx = FALSE, !.q = <<>>] ELSE @[c]]], res |-> Plain]
    [] op.op = "log" -> [st |-> st, res |-> [k |-> "log", log |-> LogOf(st.logs, op.id)]]
    [] op.op = "cell" -> [st |-> [st EXCEPT !.cells = (op.id :> op.items) @@ @], res |-> Plain]
    [] op.op = "read" -> [st |-> st, res |-> [k |-> "read", r |-> ReadInstr(st.objs[op.id].i, st.now)]]
    [] op.op = "gset" -> [st |-> [st EXCEPT !.objs[op.id].i = GSet(@, FromSrc(op.v), st.now)], res |-> Plain]
    [] op.op = "accepts" -> [st |-> st, res |-> [k |-> "a", a |-> Accepts(st.objs[op.id].d.f, op.l)]]
    [] op.op = "filter" -> [st |-> st, res |-> [k |-> "a", a |-> [j \in 1..Len(op.ls) |-> Accepts(op.f, op.ls[j])]]]
    [] op.op = "names" ->
         LET x == st.objs[op.id]
             kk == IF x.k = "proc" THEN {"cockpit"} ELSE IF x.k = "cockpit" THEN {"panel"} ELSE {}
             ks == Kids(x, kk)
             ns == Len(Kids(x, SnapKinds))
         IN [st |-> st, res |-> [k |-> "names", own |-> NameOf(x), kids |-> [j \in 1..Len(ks) |-> NameOf(ks[j])], nh |-> Len(x.kids) - Len(ks) - ns, ns |-> ns]]
    [] op.op = "conv" ->
         LET v == FromSrc(op.v)
         IN [st |-> st, res |-> [k |-> "conv", v |-> v, i |-> ConvI64(v), u |-> ConvU64(v), b |-> ConvBool(v), item |-> ConvItem(v), delta |-> IsDelta(v)]]
    [] op.op = "find" ->
         LET items == IF "id" \in DOMAIN op THEN SnapOf(st, st.objs[op.id], op.d) ELSE op.sn
             f == Find(items, op.segs)
         IN [st |-> st, res |-> [k |-> "find", f |-> f, then |-> IF op.then = <<>> THEN <<>> ELSE <<FindThen(f, op.then[1])>>]]
    [] op.op = "json" -> [st |-> st, res |-> [k |-> "json", j |-> JsonItems(op.sn, ~op.dflt /\ op.bi)]]

(* ----------------------------- results as observed --------------------------- *)
SameOpt(a, b, same(_, _)) == Len(a) = Len(b) /\ (a = <<>> \/ same(a[1], b[1]))
SameObs(e, o) ==
  /\ e.l = o.l /\ e.ts = o.ts /\ e.u.k = o.k
  /\ CASE o.k = "n" -> WEq(e.u.c, o.c) [] o.k = "1" -> TRUE [] o.k = "v" -> SameValue(e.u.v, o.v)
SameLog(a, b) == Len(a) = Len(b) /\ \A i \in 1..Len(a) : SameObs(a[i], b[i])
SameFound(f, o) ==
  /\ SameOpt(f, o.found, SameItem) /\ SameOpt(f, o.opt, SameItem) /\ o.optok
  /\ \A u \in {"ns", "us", "ms", "s"} :
       LET e == AsDuration(f, u) IN e.r = o[u].r /\ (e.r = "d" => WEq(e.ns, WAdd(WMulPow10(o[u].secs, 9), WInt(o[u].nanos))))
\* chkn: whether the number of updated instruments is compared
Matches(e, o, chkn) ==
  /\ o.ok
  /\ CASE e.k = "ok" -> TRUE
       [] e.k = "n" -> ~chkn \/ e.n = o.n
       [] e.k = "snap" -> SameItems(e.s, o.s)
       [] e.k = "q" -> ~e.rx \/ (e.size = o.size /\ e.full = o.full /\ e.empty = o.empty /\ e.cap = o.cap)
       [] e.k = "out" -> /\ e.o.p = o.p /\ e.o.d = o.d /\ e.o.q = o.q /\ (chkn => e.o.u = o.u)
                         /\ o.happened = (e.o.p + e.o.d > 0)
       [] e.k = "log" -> SameLog(e.log, o.log)
       [] e.k = "a" -> e.a = o.a
       [] e.k = "names" -> e.own = o.own /\ e.kids = o.kids /\ e.nh = o.nh /\ e.ns = o.ns
       [] e.k = "read" -> /\ e.r.n = o.r.n /\ e.r.ti = o.r.ti /\ e.r.de = o.r.de /\ e.r.set = o.r.set
                          /\ SameOpt(e.r.v, o.r.v, SameItem) /\ SameOpt(e.r.rv, o.r.rv, SameItem)
       [] e.k = "conv" -> /\ SameValue(e.v, o.v) /\ SameOpt(e.i, o.i, WEq) /\ SameOpt(e.u, o.u, WEq) /\ e.b = o.b /\ e.delta = o.delta
                          /\ SameOpt(e.item, o.k, SameItem) /\ SameOpt(e.item, o.k2, SameItem)
       [] e.k = "find" -> SameFound(e.f, o) /\ Len(e.then) = Len(o.then) /\ (e.then # <<>> => SameFound(e.then[1], o.then[1]))
       [] e.k = "json" -> o.json.t = "g" /\ SameJsons(e.j, o.json.x)
=============================================================================
