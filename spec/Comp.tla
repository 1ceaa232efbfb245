-------------------------------- MODULE Comp --------------------------------
(* Components: how observations travel from a processor down to instruments  *)
(* and what a snapshot of the tree contains (src/cockpit.rs,                 *)
(* src/instruments/{panel,instrument_adapter,label_filter,polled}.rs,        *)
(* src/instruments/gauge/gauge_adapter.rs).                                  *)
(*                                                                           *)
(* Node: adp  [k, f, m, i]            an instrument with filter and modifier *)
(*       gadp [k, st, f, f2, i]       a gauge with its update strategy       *)
(*       rec  [k, id, n, ret]         a handler that records what it is told *)
(*       panel, cockpit [k, d, kids, last]                                   *)
(*       echo [k, l, to, l2]          a handler that sends one of its own      *)
(*       cell [k, id, items], const, poll: values taken when asked for       *)
EXTENDS Instr, TLC

(* -------------------------------- filters -------------------------------- *)
InSeq(q, x) == \E i \in 1..Len(q) : q[i] = x
Accepts(f, l) ==
  \/ CASE f.k = "all" -> TRUE [] f.k = "none" -> FALSE [] f.k = "labels" -> InSeq(f.ls, l) [] f.k = "pred" -> l % f.m = f.r
  \/ InSeq(f.add, l)

(* ------------------------------- modifiers -------------------------------- *)
Modify(m, l, u) ==
  CASE m.k = "keep" -> u
    [] m.k = "one" -> [k |-> "1"]
    [] m.k = "cnt" -> [k |-> "n", c |-> m.c]
    [] m.k = "val" -> [k |-> "v", v |-> FromSrc(m.v)]
    [] m.k = "lbl" -> [k |-> "v", v |-> [t |-> "i", x |-> WInt(l)]]
    [] m.k = "iflbl" -> IF l = m.l THEN [k |-> "v", v |-> FromSrc(m.v)] ELSE u

(* ---------------------------- building from definitions -------------------- *)
NoFilter == [k |-> "all", add |-> <<>>]
NoMod == [k |-> "keep"]
RECURSIVE Build(_, _)
Build(d, now) ==
  CASE d.k = "adp" -> [k |-> "adp", f |-> d.f, m |-> d.m, i |-> NewInstr(d.i, now)]
    [] d.k = "gadp" -> [k |-> "gadp", st |-> d.st, f |-> d.f, f2 |-> IF d.st = "incdec" THEN d.f2 ELSE d.f, i |-> NewGauge(d.i, now)]
    [] d.k \in {"rec", "echo"} -> d
    [] d.k \in {"cell", "const", "poll"} -> d
    [] d.k \in {"panel", "cockpit"} ->
         [k |-> d.k, d |-> d, last |-> now,
          kids |-> [j \in 1..Len(d.items) |->
            LET it == d.items[j]
            IN  CASE it.slot \in {"counter", "meter", "histo"} -> [k |-> "adp", f |-> it.x.f, m |-> it.x.m, i |-> NewInstr(it.x.i, now)]
                  [] it.slot = "instr" -> [k |-> "adp", f |-> NoFilter, m |-> NoMod, i |-> NewInstr(it.x.i, now)]
                  [] OTHER -> Build(it.x, now)]]

(* --------------------------------- channels -------------------------------- *)
Full(c) == c.cap # <<>> /\ Len(c.q) >= c.cap[1]
EnqueueTo(chans, c, m) == IF ~chans[c].rx \/ Full(chans[c]) THEN chans ELSE [chans EXCEPT ![c].q = Append(@, m)]
UpdateOf(o) == CASE o.k = "n" -> [k |-> "n", c |-> o.c] [] o.k = "1" -> [k |-> "1"] [] o.k = "v" -> [k |-> "v", v |-> FromSrc(o.v)]
ObsMsg(o) == [k |-> "obs", o |-> o]

(* ------------------------------- observations ------------------------------ *)
(* Observation [l, u, ts]. A: [n |-> instruments updated, logs |-> what the   *)
(* recorders were told, chans |-> all channels].                              *)
LogOf(logs, id) == IF id \in DOMAIN logs THEN logs[id] ELSE <<>>
RECURSIVE Observe(_, _, _, _), ObserveAll(_, _, _, _, _)
Observe(x, o, A, now) ==
  CASE x.k = "adp" ->
         IF ~Accepts(x.f, o.l) THEN [x |-> x, A |-> A]
         ELSE LET r == UpdInstr(x.i, Modify(x.m, o.l, o.u), now)
              IN  [x |-> [x EXCEPT !.i = r.i], A |-> [A EXCEPT !.n = @ + r.n]]
    [] x.k = "gadp" ->
         LET one(w) == [k |-> "v", v |-> [t |-> "c", x |-> w]]
             u == CASE x.st = "filter" -> IF Accepts(x.f, o.l) THEN <<o.u>> ELSE <<>>
                    [] x.st = "deltas" -> IF Accepts(x.f, o.l) /\ o.u.k = "v" /\ IsDelta(o.u.v) THEN <<o.u>> ELSE <<>>
                    [] x.st = "incdec" -> IF Accepts(x.f, o.l) THEN <<one(W1)>> ELSE IF Accepts(x.f2, o.l) THEN <<one(WNeg(W1))>> ELSE <<>>
         IN IF u = <<>> THEN [x |-> x, A |-> A]
            ELSE LET r == UpdGauge(x.i, u[1], now) IN [x |-> [x EXCEPT !.i = r.i], A |-> [A EXCEPT !.n = @ + r.n]]
    [] x.k = "rec" ->
         [x |-> x, A |-> [A EXCEPT !.n = @ + x.ret, !.logs = (x.id :> Append(LogOf(@, x.id), o)) @@ @]]
    [] x.k = "echo" ->
         [x |-> x, A |-> IF o.l # x.l THEN A
                         ELSE [A EXCEPT !.n = @ + 1, !.chans = EnqueueTo(@, x.to, ObsMsg([l |-> x.l2, u |-> [k |-> "1"], ts |-> now]))]]
    [] x.k \in {"cell", "const", "poll"} -> [x |-> x, A |-> A]
    [] x.k \in {"panel", "cockpit"} ->
         IF x.k = "panel" /\ ~Accepts(x.d.f, o.l) THEN [x |-> x, A |-> A]
         ELSE LET r == ObserveAll(x.kids, 1, o, A, now) IN [x |-> [x EXCEPT !.kids = r.x, !.last = now], A |-> r.A]
ObserveAll(xs, j, o, A, now) ==
  IF j > Len(xs) THEN [x |-> xs, A |-> A]
  ELSE LET r == Observe(xs[j], o, A, now) IN ObserveAll([xs EXCEPT ![j] = r.x], j + 1, o, r.A, now)

(* -------------------------------- snapshots -------------------------------- *)
(* E: [now, desc, cells, logs]                                                *)
CellItems(x, E) == IF x.id \in DOMAIN E.cells THEN E.cells[x.id] ELSE x.items
\* a level of its own for named components
Level(name, into, put(_)) == IF name = <<>> THEN put(into) ELSE Append(into, Group(name[1], put(<<>>)))
\* own title and description, activity indication, and unless idle the values
Body(d, show, last, into, E, put(_)) ==
  LET t == IF E.desc THEN AddText(AddText(into, "_title", d.ti), "_description", d.de) ELSE into
      idle == d.limit # <<>> /\ Exceeds(d.limit[1], E.now - last)
      act == IF d.limit # <<>> /\ show THEN t \o <<Item("_inactive", "b", idle), Item("_active", "b", ~idle)>> ELSE t
  IN IF idle THEN act ELSE put(act)
RECURSIVE Put(_, _, _), PutAll(_, _, _, _)
Put(x, into, E) ==
  CASE x.k \in {"adp", "gadp"} -> PutInstr(x.i, into, E.desc, E.now)
    [] x.k = "rec" -> Append(into, Num(x.n, WInt(Len(LogOf(E.logs, x.id)))))
    [] x.k = "cell" -> into \o CellItems(x, E)
    [] x.k = "echo" -> into
    [] x.k = "const" -> Append(PutTexts(into, x, E.desc), [n |-> x.n, v |-> x.v])
    [] x.k = "poll" -> LET t == PutTexts(into, x, E.desc) IN IF x.group THEN Append(t, Group(x.n, CellItems(x, E))) ELSE t \o CellItems(x, E)
    [] x.k \in {"panel", "cockpit"} ->
         Level(x.d.n, into, LAMBDA lv : Body(x.d, x.d.show, x.last, lv, E, LAMBDA b : PutAll(x.kids, 1, b, E)))
PutAll(xs, j, into, E) == IF j > Len(xs) THEN into ELSE PutAll(xs, j + 1, Put(xs[j], into, E), E)

(* ------------------------------- registration ------------------------------ *)
NameOf(x) == IF x.k \in {"panel", "cockpit", "proc", "mount"} THEN x.d.n ELSE <<>>
\* a named component is not added next to one of its kind with this name
AddUnique(kids, x) == IF NameOf(x) # <<>> /\ \E j \in 1..Len(kids) : kids[j].k = x.k /\ NameOf(kids[j]) = NameOf(x) THEN kids ELSE Append(kids, x)
RemoveNamed(kids, k, n) == SelectSeq(kids, LAMBDA x : ~(x.k = k /\ NameOf(x) = <<n>>))
\* building drops later panels of the same name, too (only cockpits and processors do that)
RECURSIVE UniqueKids(_, _)
UniqueKids(kids, acc) == IF kids = <<>> THEN acc ELSE UniqueKids(Tail(kids), AddUnique(acc, kids[1]))
BuildC(d, now) == LET x == Build(d, now) IN IF d.k = "cockpit" THEN [x EXCEPT !.kids = UniqueKids(@, <<>>)] ELSE x
=============================================================================
