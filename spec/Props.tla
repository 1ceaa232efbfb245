-------------------------------- MODULE Props --------------------------------
(* The properties, stated over the history of a run (tr: which operations    *)
(* were made when, with which results) without reference to how Metrix, Sys  *)
(* and so on compute their next states.                                      *)
EXTENDS Sys, Json, IOUtils
VARIABLES wi, st, tr
vars == <<wi, st, tr>>
W == TLCEval(ndJsonDeserialize(IOEnv.WORLDS))

(* --------------------------------- the history -------------------------------- *)
NSetup == Len(W[wi].setup)
OpAt(i) == IF tr[i].j = 0 THEN W[wi].setup[i] ELSE W[wi].alpha[tr[i].j].op
All == [i \in 1..Len(tr) |-> i]
Where(p(_)) == SelectSeq(All, p)
Is(i, k) == OpAt(i).op = k
UpdAt(i) == UpdateOf(OpAt(i).o)
Observed(id) == Where(LAMBDA i : Is(i, "obs") /\ OpAt(i).id = id)
SumOver(q, f(_)) == FoldLeft(LAMBDA a, i : WAdd(a, f(i)), W0, q)
Map(q, f(_)) == [k \in 1..Len(q) |-> f(q[k])]
MaxT(q) == IF q = <<>> THEN -1 ELSE FoldLeft(LAMBDA a, i : IF tr[i].t > a THEN tr[i].t ELSE a, -1, q)
Count(S) == Cardinality(S)
WMaxOf(q) == FoldLeft(WMax, q[1], q)
WMinOf(q) == FoldLeft(WMin, q[1], q)

(* --------------------------------- what is shown ------------------------------ *)
Snap(id) == SnapOf(st, st.objs[id], FALSE)
Has(items, n) == Pick(items, n) # <<>>
It(items, n) == Pick(items, n)[1].v
X(items, n) == It(items, n).x
\* the items at a path, each group of the path taken once
RECURSIVE AtPath(_, _)
AtPath(items, path) ==
  IF Len(path) = 1 THEN Pick(items, path[1])
  ELSE LET g == Pick(items, path[1]) IN IF Len(g) # 1 \/ g[1].v.t # "g" THEN <<>> ELSE AtPath(g[1].v.x, Tail(path))
RECURSIVE Leaves(_)
Leaves(items) == FoldLeft(LAMBDA a, e : a + (IF e.v.t = "g" THEN Leaves(e.v.x) ELSE 1), 0, items)
EqI(items, n, w) == Has(items, n) /\ WEq(X(items, n), w)

(* ------------------------------------ C06 ------------------------------------- *)
Occ(u) == CASE u.k = "1" -> W1 [] u.k = "n" -> u.c [] u.k = "v" -> W1
\* the whole number of 64 bits a value stands for (durations in milliseconds): << >> or <<x>>
Fits(x) == IF WLt(I64Max, x) THEN <<>> ELSE <<WMax(I64Min, x)>>
AbsOf(u) ==
  IF u.k # "v" THEN <<>>
  ELSE CASE u.v.t \in {"i", "u"} -> Fits(u.v.x) [] u.v.t = "d" -> <<WMin(I64Max, ToUnit(u.v.x, u.v.u, "ms"))>>
         [] u.v.t = "f" -> IF u.v.x.nf # "no" THEN (IF u.v.x.nf = "-inf" THEN <<I64Min>> ELSE <<>>) ELSE Fits(Rounded(u.v.x)) [] OTHER -> <<>>
Amount(u) == LET x == AbsOf(u) IN IF x # <<>> /\ x[1].s > 0 THEN x[1] ELSE W0
P06 ==
  LET s == Snap("X") os == Observed("X")
      n == SumOver(os, LAMBDA i : Occ(UpdAt(i)))
  IN /\ EqI(s, "c", WMin(U64Max, n))
     /\ EqI(X(s, "m"), "count", WMin(I64Max, n))
     /\ EqI(X(s, "v"), "count", WMin(I64Max, SumOver(os, LAMBDA i : Amount(UpdAt(i)))))

(* ------------------------------------ C07 ------------------------------------- *)
IsD(u) == u.k = "v" /\ u.v.t = "c"
\* the value after the observations q: << >> or <<x>>
GaugeAfter(q) ==
  LET abs == SelectSeq(q, LAMBDA i : AbsOf(UpdAt(i)) # <<>>)
      from == IF abs = <<>> THEN 0 ELSE abs[Len(abs)]
      ds == SelectSeq(q, LAMBDA i : i > from /\ IsD(UpdAt(i)))
  IN IF abs = <<>> /\ ds = <<>> THEN <<>>
     ELSE <<WAdd(IF abs = <<>> THEN W0 ELSE AbsOf(UpdAt(from))[1], SumOver(ds, LAMBDA i : UpdAt(i).v.x))>>
Shows(s, n, v) == IF v = <<>> THEN ~Has(s, n) ELSE EqI(s, n, v[1])
P07 ==
  LET s == Snap("X") os == Observed("X")
      l1 == SelectSeq(os, LAMBDA i : OpAt(i).o.l = 1)
      l2 == SelectSeq(os, LAMBDA i : OpAt(i).o.l = 2)
      ds == SelectSeq(l1, LAMBDA i : IsD(UpdAt(i)))
  IN /\ Shows(s, "g", GaugeAfter(os))
     /\ Shows(s, "gd", GaugeAfter(ds))
     /\ Shows(s, "gi", IF l1 = <<>> /\ l2 = <<>> THEN <<>> ELSE <<WInt(Len(l1) - Len(l2))>>)

(* ------------------------------------ C08 ------------------------------------- *)
\* the gauge "g" (tracking over n seconds) was created at time 0
P08of(n, name) ==
  LET os == Observed("X")
      sets == SelectSeq(os, LAMBDA i : AbsOf(UpdAt(i)) # <<>> \/ IsD(UpdAt(i)))
      v(i) == GaugeAfter(SelectSeq(os, LAMBDA j : j <= i))[1]
      slot(i) == tr[i].t \div 1000
      win == SelectSeq(sets, LAMBDA i : slot(i) > st.now \div 1000 - n)
      slots == {slot(win[k]) : k \in 1..Len(win)}
      hi(sl) == WMaxOf(Map(SelectSeq(win, LAMBDA i : slot(i) = sl), v))
      lo(sl) == WMinOf(Map(SelectSeq(win, LAMBDA i : slot(i) = sl), v))
      his == Map(SetToSeq(slots), hi)
      los == Map(SetToSeq(slots), lo)
      cur == GaugeAfter(os)
      s == X(Snap("X"), name)
      mean(q) == MeanScaled(WSumSeq(q), Len(q))
      is(k, x) == EqI(s, k, x)
      isf(k, x) == Near(X(s, k).sc, x)
  IN IF cur = <<>> THEN s = <<>>
     ELSE /\ is("current", cur[1])
          /\ IF win = <<>>
             THEN /\ is("peak", cur[1]) /\ is("bottom", cur[1]) /\ is("peak_min", cur[1]) /\ is("bottom_max", cur[1])
                  /\ isf("avg", Scaled(cur[1])) /\ isf("peak_avg", Scaled(cur[1])) /\ isf("bottom_avg", Scaled(cur[1]))
             ELSE /\ is("peak", WMaxOf(Map(win, v))) /\ is("bottom", WMinOf(Map(win, v)))
                  /\ is("peak_min", WMinOf(his)) /\ is("bottom_max", WMaxOf(los))
                  /\ isf("avg", mean(Map(win, v))) /\ isf("peak_avg", mean(his)) /\ isf("bottom_avg", mean(los))
P08 == P08of(1, "g1") /\ P08of(3, "g3")

(* ------------------------------------ C09 ------------------------------------- *)
RECURSIVE PowF(_, _)
PowF(x, n) == IF n = 0 THEN Scaled(W1) ELSE WShr(WMul(x, PowF(x, n - 1)), Scale)
\* the meter was created at time 0; what was marked in the k-th interval (from 0), per second
Marks(k) == WDivK(Scaled(SumOver(SelectSeq(Observed("X"), LAMBDA i : tr[i].t \div 5000 = k), LAMBDA i : Occ(UpdAt(i)))), 5)
Ewma(i) ==
  LET n == st.now \div 5000
      b == WSub(Scaled(W1), Alpha[i])
      w(k) == IF k = 0 THEN PowF(b, n - 1) ELSE WShr(WMul(Alpha[i], PowF(b, n - 1 - k)), Scale)
  IN IF n = 0 THEN W0 ELSE WSumSeq([k \in 1..n |-> LET x == Marks(k - 1) IN IF x.s = 0 THEN W0 ELSE WShr(WMul(w(k - 1), x), Scale)])
P09 ==
  LET s == X(Snap("X"), "m")
      ok(g, i, cut) == LET r == X(X(s, g), "rate") IN LET e == Ewma(i) IN
                       It(X(s, g), "rate").t = "any" \/ Near(r.sc, IF WLt(e, cut) THEN W0 ELSE e)
      c == [s |-> 1, d |-> <<0, 0, 0, 10>>]
  IN ok("one_minute", 1, c) /\ ok("five_minutes", 2, c) /\ ok("fifteen_minutes", 3, c) /\ Len(s) = 4

(* ------------------------------------ C10 ------------------------------------- *)
\* histogram "h" (no limit) and "hr" (starts over after 2000 ms), created at time 0
Handled10(i) == UpdAt(i).k = "v" /\ AbsOf(UpdAt(i)) # <<>>
ResetAt(os, i) ==
  LET before == SelectSeq(os, LAMBDA j : j < i /\ Handled10(j)) IN tr[i].t - (IF before = <<>> THEN 0 ELSE MaxT(before)) > 2000
P10of(s, vs) ==
  LET n == Len(vs)
      is(k, x) == It(s, k).t = "range" \/ EqI(s, k, x)
      qs == X(s, "quantiles")
      cand(v) == IF v.t = "any" THEN {v.x[k].x : k \in 1..Len(v.x)} ELSE IF v.t = "range" THEN {} ELSE {v.x}
      below(x) == Count({k \in 1..n : WLt(vs[k], x)})
      upto(x) == Count({k \in 1..n : WLe(vs[k], x)})
  IN /\ EqI(s, "count", WInt(n))
     /\ n > 0 => /\ is("min", WMinOf(vs)) /\ is("max", WMaxOf(vs))
                 /\ \A k \in 1..Len(Quants) : \A x \in cand(It(qs, Quants[k][1])) :
                      /\ \E m \in 1..n : WEq(vs[m], x)
                      /\ below(x) * 1000 <= Quants[k][2] * n + 1000
                      /\ upto(x) * 1000 >= Quants[k][2] * n
P10 ==
  LET os == Observed("X") s == Snap("X")
      vals(q) == Map(SelectSeq(q, Handled10), LAMBDA i : AbsOf(UpdAt(i))[1])
      resets == SelectSeq(os, LAMBDA i : ResetAt(os, i))
      from == IF resets = <<>> THEN 0 ELSE resets[Len(resets)]
      hs == SelectSeq(os, Handled10)
      idle == st.now - (IF hs = <<>> THEN 0 ELSE MaxT(hs))
  IN /\ P10of(X(s, "h"), vals(os))
     /\ IF idle >= 2000 THEN X(X(s, "hr"), "_inactive") /\ ~X(X(s, "hr"), "_active") /\ Len(X(s, "hr")) = 2
        ELSE ~X(X(s, "hr"), "_inactive") /\ P10of(X(s, "hr"), vals(SelectSeq(os, LAMBDA i : i >= from)))

(* ------------------------------------ C11 ------------------------------------- *)
\* all have a time of 2000 ms, created at time 0
P11 ==
  LET os == Observed("X") s == Snap("X")
      last == MaxT(os)
      since == st.now - last
      is(n, b) == X(s, n) = b /\ X(s, "not_" \o n) = ~b
      bools == SelectSeq(os, LAMBDA i : UpdAt(i).k = "v" /\ UpdAt(i).v.t \in {"b", "i", "u"})
      truth(i) == LET v == UpdAt(i).v IN IF v.t = "b" THEN v.x ELSE v.x.s # 0
      shown == SelectSeq(os, LAMBDA i : UpdAt(i).k = "v" /\ UpdAt(i).v.t \in {"b", "i", "u", "f"})
  IN /\ is("stair", os # <<>> /\ since <= 2000) /\ is("stairi", ~(os # <<>> /\ since <= 2000))
     /\ is("occ", os # <<>> /\ since < 2000)
     /\ is("nonocc", (IF os = <<>> THEN st.now ELSE since) >= 2000)
     /\ IF bools = <<>> THEN ~Has(s, "flag") /\ ~Has(s, "not_flag") ELSE is("flag", truth(bools[Len(bools)]))
     /\ IF os = <<>> THEN ~Has(s, "last") ELSE EqI(s, "last", WInt(since \div 1000))
     /\ LET d == It(s, "disp")
        IN IF shown = <<>> \/ st.now - MaxT(shown) > 2000 THEN d.t = "s" /\ d.x = "reset"
           ELSE LET v == UpdAt(shown[Len(shown)]).v IN d.t = v.t /\ d.x = v.x

(* ------------------------------------ C12 ------------------------------------- *)
\* X: a cockpit with limit 2000, in it a counter for labels 1, 2 and a panel for labels 1, 3
\* with limit 1000 with a counter for label 1: what is accepted counts, whether used or not;
\* P: a processor with limit 2000 and a counter; M: a mount with limit 3000 with another processor
P12 ==
  LET os == Observed("X") s == Snap("X")
      of(ls) == SelectSeq(os, LAMBDA i : OpAt(i).o.l \in ls)
      since(q) == st.now - (IF q = <<>> THEN 0 ELSE MaxT(q))
      xon == since(os) <= 2000
      pon == since(of({1, 3})) <= 1000
  IN /\ X(s, "_active") = xon /\ X(s, "_inactive") = ~xon
     /\ Has(s, "c") = xon
     /\ Has(s, "p") = xon
     /\ xon => Has(X(s, "p"), "k") = pon
     /\ (xon /\ pon) => EqI(X(s, "p"), "k", SumOver(of({1}), LAMBDA i : Occ(UpdAt(i))))
     /\ xon => EqI(s, "c", SumOver(of({1, 2}), LAMBDA i : Occ(UpdAt(i))))
P12proc ==
  LET worked == Where(LAMBDA i : Is(i, "process") /\ tr[i].res.o.p + tr[i].res.o.d > 0)
      s == X(Snap("M"), "P")
      mon == st.now - (IF worked = <<>> THEN 0 ELSE MaxT(worked)) <= 3000
      pon == st.now - (IF worked = <<>> THEN 0 ELSE MaxT(worked)) <= 2000
  IN /\ Has(Snap("M"), "_active") /\ X(Snap("M"), "_active") = mon
     /\ Has(Snap("M"), "P") = mon
     /\ mon => Has(s, "c") = pon

(* ------------------------------------ C13 ------------------------------------- *)
\* W[wi].paths: where every value is shown; W[wi].texts: titles and descriptions
P13 ==
  LET s == Snap("P") d == SnapOf(st, st.objs["P"], TRUE)
      ps == W[wi].paths ts == W[wi].texts
  IN /\ \A k \in 1..Len(ps) : Len(AtPath(s, ps[k])) = 1 /\ Len(AtPath(d, ps[k])) = 1
     /\ Leaves(s) = Len(ps)
     /\ \A k \in 1..Len(ts) : AtPath(s, ts[k]) = <<>> /\ Len(AtPath(d, ts[k])) = 1
     /\ Leaves(d) = Len(ps) + Len(ts)

(* ------------------------------------ C14 ------------------------------------- *)
\* all paths there are, with what they lead to: the first item of each name counts
RECURSIVE Paths(_)
Paths(items) ==
  UNION {LET v == Pick(items, n)[1].v
         IN {<< <<n>>, v>>} \cup (IF v.t = "g" THEN {<< <<n>> \o p[1], p[2]>> : p \in Paths(v.x)} ELSE {}) : n \in Names(items)}
IsPrefixOf(p, q) == Len(p) <= Len(q) /\ SubSeq(q, 1, Len(p)) = p
P14 ==
  \A i \in 1..Len(tr) : Is(i, "find") =>
    LET ps == Paths(OpAt(i).sn)
        q == SelectSeq(OpAt(i).segs, LAMBDA x : x # "")
        hits == {p[2] : p \in {y \in ps : y[1] = q \/ (y[2].t # "g" /\ IsPrefixOf(y[1], q))}}
    IN IF hits = {} THEN tr[i].res.f = <<>> ELSE {tr[i].res.f[k] : k \in 1..Len(tr[i].res.f)} = hits

(* ----------------------------- one processor: the stream ------------------------ *)
(* Messages sent to the processor P, in order; the number already taken. The  *)
(* capacity is W[wi].cap.                                                     *)
IsMsg(i) == Is(i, "send") \/ Is(i, "ctl") \/ (Is(i, "measure") /\ OpAt(i).from <= 0)
Stream ==
  FoldLeft(LAMBDA a, i :
    IF IsMsg(i) THEN (IF W[wi].cap = <<>> \/ Len(a.acc) - a.n < W[wi].cap[1] THEN [a EXCEPT !.acc = Append(@, i)] ELSE a)
    ELSE IF Is(i, "process") THEN LET k == tr[i].res.o.p + tr[i].res.o.d IN [acc |-> a.acc, n |-> a.n + k, by |-> a.by \o [x \in 1..k |-> i]]
    ELSE a, [acc |-> <<>>, n |-> 0, by |-> <<>>], All)
IsObs(i) == Is(i, "send") \/ Is(i, "measure")
\* the observation as it was meant
Meant(i) ==
  IF Is(i, "measure") THEN [l |-> OpAt(i).l, ts |-> tr[i].t, u |-> [k |-> "v", v |-> [t |-> "d", x |-> WMulPow10(WInt(-OpAt(i).from), 6), u |-> "ns"]]]
  ELSE [l |-> OpAt(i).o.l, ts |-> tr[i].t + OpAt(i).o.ts, u |-> UpdAt(i)]
\* message i, taken by the processing call p, is refused
Refused(i, p) ==
  LET s == OpAt(p).st o == Meant(i)
  IN CASE s.k = "all" -> FALSE
       [] s.k = "none" -> TRUE
       [] s.k = "age" -> s.age # -1 /\ tr[p].t - o.ts > s.age /\ ~(o.u.k = "v" /\ o.u.v.t = "c" /\ ~s.dd)
       [] s.k = "default" -> tr[p].t - o.ts > 30000 /\ ~(o.u.k = "v" /\ o.u.v.t = "c")
\* what those between the a-th and the b-th message have in common to see
Delivered(S, from, upto) ==
  LET ks == SelectSeq([k \in 1..S.n |-> k], LAMBDA k : k > from /\ k < upto /\ IsObs(S.acc[k]) /\ ~Refused(S.acc[k], S.by[k]))
  IN Map(ks, LAMBDA k : Meant(S.acc[k]))
\* position of the k-th message that was to add / remove something (or beyond all)
PosOf(S, p(_)) == LET ks == {k \in 1..S.n : Is(S.acc[k], "ctl") /\ p(OpAt(S.acc[k]).c)} IN IF ks = {} THEN S.n + 1 ELSE CHOOSE k \in ks : \A m \in ks : k <= m
P01 ==
  LET S == Stream IN
  /\ S.n <= Len(S.acc)
  /\ LogOf(st.logs, "r1") = Delivered(S, 0, S.n + 1)
  \* a handler added, a cockpit (with recorder r3) removed through the queue
  /\ LogOf(st.logs, "r2") = Delivered(S, PosOf(S, LAMBDA c : c.k = "add_handler"), S.n + 1)
  /\ LogOf(st.logs, "r3") = Delivered(S, 0, PosOf(S, LAMBDA c : c.k = "remove_cockpit"))
P02 ==
  LET S == Stream c == st.chans["tx"] IN
  /\ W[wi].cap # <<>> => Len(c.q) <= W[wi].cap[1]
  /\ Len(S.acc) - S.n = Len(c.q)
  /\ LogOf(st.logs, "r1") = Delivered(S, 0, S.n + 1)
  /\ \A i \in 1..Len(tr) : Is(i, "q") =>
       LET r == tr[i].res IN r.rx => (r.full = (W[wi].cap # <<>> /\ r.size = W[wi].cap[1])) /\ (r.empty = (r.size = 0)) /\ r.cap = W[wi].cap
P03 ==
  \A i \in 1..Len(tr) : Is(i, "process") =>
    LET o == tr[i].res.o
        sent(j) == Count({k \in 1..(j - 1) : IsMsg(k)})
        taken(j) == FoldLeft(LAMBDA a, k : a + tr[k].res.o.p + tr[k].res.o.d, 0, SelectSeq(All, LAMBDA k : k < j /\ Is(k, "process")))
        waiting == sent(i) - taken(i)
        m == OpAt(i).max
        k == o.p + o.d
    IN W[wi].cap = <<>> => /\ k = (IF m = <<>> \/ m[1] > waiting THEN waiting ELSE m[1])
                           /\ o.q = waiting - k
\* the handlers say 2 (r1), 1 (r3, until it is removed) and 1 (r2, once it is added)
P03u ==
  LET S == Stream
      add == PosOf(S, LAMBDA c : c.k = "add_handler")
      rem == PosOf(S, LAMBDA c : c.k = "remove_cockpit")
      upd(k) == IF IsObs(S.acc[k]) /\ ~Refused(S.acc[k], S.by[k]) THEN 2 + (IF k < rem THEN 1 ELSE 0) + (IF k > add THEN 1 ELSE 0) ELSE 0
  IN \A i \in 1..Len(tr) : Is(i, "process") =>
       /\ tr[i].res.o.u = FoldLeft(LAMBDA a, k : a + (IF S.by[k] = i THEN upd(k) ELSE 0), 0, [k \in 1..S.n |-> k])
       /\ tr[i].res.o.p + tr[i].res.o.d = Count({k \in 1..S.n : S.by[k] = i})
\* as P03, but whenever label 1 is handled label 2 is sent (from then on it waits)
P03e ==
  LET step(a, i) ==
        IF Is(i, "send") THEN [a EXCEPT !.q = Append(@, OpAt(i).o.l)]
        ELSE IF ~Is(i, "process") THEN a
        ELSE LET m == IF OpAt(i).max = <<>> THEN 100 ELSE OpAt(i).max[1]
                 none == OpAt(i).st.k = "none"
                 all == FoldLeft(LAMBDA b, n : IF b.q = <<>> THEN b
                                   ELSE [q |-> IF Head(b.q) = 1 /\ ~none THEN Append(Tail(b.q), 2) ELSE Tail(b.q), s |-> Append(b.s, Head(b.q))],
                                 [q |-> a.q, s |-> <<>>], [n \in 1..m |-> n])
                 o == tr[i].res.o
                 k == Len(all.s)
             IN [q |-> all.q, seen |-> IF none THEN a.seen ELSE a.seen \o all.s,
                 ok |-> a.ok /\ (i <= NSetup \/ (o.p = (IF none THEN 0 ELSE k) /\ o.d = (IF none THEN k ELSE 0) /\ o.q = Len(all.q)))]
      end == FoldLeft(step, [q |-> <<>>, seen |-> <<>>, ok |-> TRUE], All)
  IN end.ok /\ Map(LogOf(st.logs, "r1"), LAMBDA e : e.l) = end.seen
\* two processors (transmitters tx, ty; handlers that say 2 and 3) in a mount, without capacities
P03m ==
  LET step(a, i) ==
        IF Is(i, "send") THEN [a EXCEPT !.w[OpAt(i).tx] = @ + 1]
        ELSE IF ~Is(i, "process") THEN a
        ELSE LET m == OpAt(i).max
                 k(x) == IF m = <<>> \/ m[1] > a.w[x] THEN a.w[x] ELSE m[1]
                 o == tr[i].res.o
                 none == OpAt(i).st.k = "none"
             IN [w |-> [x \in {"tx", "ty"} |-> a.w[x] - k(x)],
                 ok |-> a.ok /\ o.p = (IF none THEN 0 ELSE k("tx") + k("ty")) /\ o.d = (IF none THEN k("tx") + k("ty") ELSE 0)
                        /\ o.u = (IF none THEN 0 ELSE 2 * k("tx") + 3 * k("ty")) /\ o.q = (a.w["tx"] - k("tx")) + (a.w["ty"] - k("ty"))]
  IN FoldLeft(step, [w |-> [x \in {"tx", "ty"} |-> 0], ok |-> TRUE], All).ok
\* senders that wait for room: b1 ... each send one message through tx
P02b ==
  LET c == st.chans["tx"]
      sent == Where(LAMBDA i : Is(i, "bsend"))
      names == {OpAt(sent[k]).b : k \in 1..Len(sent)}
      told == {OpAt(i).b : i \in {j \in 1..Len(tr) : Is(j, "bsend") /\ tr[j].res.done}} \cup st.bdone
      waiting == IF "tx" \in DOMAIN st.blk THEN {e.b : e \in st.blk["tx"]} ELSE {}
      log == LogOf(st.logs, "r1")
      mineIn(q) == Count({k \in 1..Len(q) : TRUE})
  IN IF ~c.rx THEN waiting = {}
     ELSE /\ Len(c.q) <= W[wi].cap[1]
          /\ waiting # {} => Len(c.q) = W[wi].cap[1]
          /\ waiting \cap told = {}
          /\ Len(log) + Len(c.q) + Count(waiting) = Len(sent)
          \* each message once
          /\ \A k, m \in 1..Len(log) : k # m => log[k].l # log[m].l
          \* a processing call takes at least what waited when it began; without
          \* any room in the queue that is what the waiting senders hold
          /\ \A i \in 1..Len(tr) : Is(i, "process") =>
               LET done == FoldLeft(LAMBDA a, j : IF Is(j, "process") THEN a + tr[j].res.o.p ELSE a, 0, SubSeq(All, 1, i - 1))
                   there == Count({j \in 1..(i - 1) : Is(j, "bsend")}) - done
                   ready == IF W[wi].cap[1] = 0 \/ there < W[wi].cap[1] THEN there ELSE W[wi].cap[1]
                   m == OpAt(i).max
               IN tr[i].res.o.p >= (IF m = <<>> \/ m[1] > ready THEN ready ELSE m[1])
P04 ==
  LET S == Stream IN
  /\ LogOf(st.logs, "r1") = Delivered(S, 0, S.n + 1)
  /\ \A i \in 1..Len(tr) : Is(i, "process") =>
       /\ tr[i].res.o.d = Count({k \in 1..S.n : S.by[k] = i /\ IsObs(S.acc[k]) /\ Refused(S.acc[k], i)})
       /\ OpAt(i).st.k = "all" => tr[i].res.o.d = 0

(* ------------------------------------ C05 ------------------------------------- *)
\* W[wi].accept: for every leaf (a counter at a path) the labels that get there
P05 ==
  LET S == Stream s == Snap("P") ac == W[wi].accept IN
  \A k \in 1..Len(ac) :
    LET n == Count({m \in 1..S.n : IsObs(S.acc[m]) /\ InSeq(ac[k].ls, OpAt(S.acc[m]).o.l)})
        it == AtPath(s, ac[k].path)
    IN Len(it) = 1 /\ WEq(it[1].v.x, WInt(n))

(* ------------------------------------ C15 ------------------------------------- *)
\* Events: [t |-> "add", n (<< >> or <<name>>), r], [t |-> "rem", n], [t |-> "obs", o].
\* Who is there (the recorder r stands for what was added) before the k-th of them:
There15(q, start, k) ==
  FoldLeft(LAMBDA a, e : CASE e.t = "add" -> IF e.n # <<>> /\ \E y \in a : y[1] = e.n THEN a ELSE a \cup {<<e.n, e.r>>}
                           [] e.t = "rem" -> {y \in a : y[1] # <<e.n>>}
                           [] OTHER -> a, start, SubSeq(q, 1, k - 1))
Seen15(q, start, r) == Map(SelectSeq([k \in 1..Len(q) |-> k], LAMBDA k : q[k].t = "obs" /\ \E y \in There15(q, start, k) : y[2] = r), LAMBDA k : q[k].o)
Ev(op, obs, what) ==
  IF op.op \in {"obs", "send"} THEN [t |-> "obs", o |-> obs]
  ELSE IF op.c.k = "add_" \o what THEN [t |-> "add", n |-> op.c.x.n, r |-> op.c.x.items[1].x.id]
  ELSE IF op.c.k = "remove_" \o what THEN [t |-> "rem", n |-> op.c.n]
  ELSE [t |-> "-"]
NamesUnique(x, k) == LET ks == SelectSeq(Kids(x, {k}), LAMBDA y : NameOf(y) # <<>>) IN \A i, j \in 1..Len(ks) : i # j => NameOf(ks[i]) # NameOf(ks[j])
Logs15(q, start, rs) == \A r \in rs : LogOf(st.logs, r) = Seen15(q, start, r)
KidNames(x, k) == {NameOf(y) : y \in ToSet(Kids(x, {k}))}
\* cockpits of the processor P, through the queue ("a" with recorder r1 is there from the start)
P15 ==
  LET S == Stream
      q == [k \in 1..S.n |-> Ev(OpAt(S.acc[k]), Meant(S.acc[k]), "cockpit")]
      s == {<<<<"a">>, "r1">>}
  IN /\ NamesUnique(st.objs["P"], "cockpit") /\ Logs15(q, s, {"r1", "r2", "r3", "r4", "r5"})
     /\ KidNames(st.objs["P"], "cockpit") = {y[1] : y \in There15(q, s, S.n + 1)}
\* panels of the cockpit X, directly
P15d ==
  LET is == Where(LAMBDA i : Is(i, "direct") \/ Is(i, "obs"))
      q == Map(is, LAMBDA i : Ev(OpAt(i), IF Is(i, "obs") THEN Meant(i) ELSE 0, "panel"))
      s == {<<<<"a">>, "r1">>}
  IN /\ NamesUnique(st.objs["X"], "panel") /\ Logs15(q, s, {"r1", "r2", "r3", "r4", "r5"})
     /\ KidNames(st.objs["X"], "panel") = {y[1] : y \in There15(q, s, Len(q) + 1)}
\* panels of the cockpits C (with r1) and E (with r5) of P, through the queue
P15q ==
  LET S == Stream
      q(c) == Map(SelectSeq([k \in 1..S.n |-> k], LAMBDA k : IsObs(S.acc[k]) \/ OpAt(S.acc[k]).c.c = c), LAMBDA k : Ev(OpAt(S.acc[k]), Meant(S.acc[k]), "panel"))
  IN /\ Logs15(q("C"), {<<<<"a">>, "r1">>}, {"r1", "r2", "r3"})
     /\ Logs15(q("E"), {<<<<"a">>, "r5">>}, {"r5"})
     /\ LogOf(st.logs, "r4") = <<>>

(* ------------------------------------ C20 ------------------------------------- *)
RECURSIVE InRange(_), InRangeV(_)
InRangeV(v) ==
  CASE v.t = "g" -> InRange(v.x)
    [] v.t = "any" -> \A k \in 1..Len(v.x) : InRangeV(v.x[k])
    [] v.t = "range" -> WLe(I64Min, v.lo) /\ WLe(v.hi, U64Max)
    [] v.t \in {"i", "u"} -> WLe(I64Min, v.x) /\ WLe(v.x, U64Max)
    [] OTHER -> TRUE
InRange(items) == \A k \in 1..Len(items) : InRangeV(items[k].v)
\* X: a panel with instruments of every kind; counts do not go back, signs stay
P20 ==
  LET s == Snap("X") os == Observed("X")
  IN /\ InRange(s)
     /\ EqI(s, "c", WMin(U64Max, SumOver(os, LAMBDA i : Occ(UpdAt(i)))))
     /\ Has(s, "g") => (WLe(I64Min, X(s, "g")) /\ WLe(X(s, "g"), I64Max))
     \* only increments: never negative
     /\ (\A k \in 1..Len(os) : LET u == UpdAt(os[k]) IN u.k # "v" \/ (u.v.t \in {"c", "i", "u"} /\ u.v.x.s >= 0)) => (Has(s, "g") => X(s, "g").s >= 0)
     /\ X(X(s, "m"), "count").s >= 0

(* ------------------------------------ C22 ------------------------------------- *)
\* the nearest whole number: no further away than one half
Half == WDivK(Scaled(W1), 2)
NearestTo(x, f) == LET v == IF f.neg THEN WNeg(WAbs(f.sc)) ELSE f.sc IN WLe(WAbs(WSub(Scaled(x), v)), Half)
P22 ==
  /\ \A i \in 1..Len(tr) : Is(i, "conv") =>
       LET r == tr[i].res v == r.v IN
       CASE v.t \in {"i", "u"} -> /\ (WLe(I64Min, v.x) /\ WLe(v.x, I64Max)) = (r.i # <<>>) /\ (r.i # <<>> => WEq(r.i[1], v.x))
                                  /\ (v.x.s >= 0) = (r.u # <<>>) /\ (r.u # <<>> => WEq(r.u[1], v.x))
                                  /\ r.b = <<v.x.s # 0>>
         [] v.t = "f" -> /\ v.x.nf \in {"nan", "inf"} => r.i = <<>> /\ r.u = <<>>
                         /\ v.x.nf = "no" => /\ (r.i # <<>> /\ ~WEq(r.i[1], I64Min) /\ ~WEq(r.i[1], I64Max)) => NearestTo(r.i[1], v.x)
                                             /\ (r.u # <<>> /\ ~WEq(r.u[1], W0) /\ ~WEq(r.u[1], U64Max)) => NearestTo(r.u[1], v.x)
                                             /\ (r.u # <<>> /\ v.x.neg) => WEq(r.u[1], W0)
         [] v.t = "b" -> r.b = <<v.x>> /\ r.i = <<>> /\ r.u = <<>>
         [] OTHER -> r.i = <<>> /\ r.u = <<>> /\ r.b = <<>>
  /\ "tx" \in DOMAIN st.chans => LogOf(st.logs, "r1") = Delivered(Stream, 0, Stream.n + 1)

(* ------------------------------- drivers: C16 ... ------------------------------ *)
There(d) == d \in DOMAIN st.drvs
\* commands given to D1, in order
IsCmd(i) == Is(i, "dpause") \/ Is(i, "dresume") \/ Is(i, "dstrat") \/ Is(i, "dreq") \/ (Is(i, "put") /\ "h" \in DOMAIN OpAt(i))
Given == Where(IsCmd)
Sends == Where(LAMBDA i : Is(i, "send"))
LastOf(q) == q[Len(q)]
P16 ==
  LET d == st.drvs["D1"]
      g == SubSeq(Given, 1, Len(Given) - Len(d.cmds))          \* those already carried out
      pr == SelectSeq(g, LAMBDA i : Is(i, "dpause") \/ Is(i, "dresume"))
      ss == SelectSeq(g, LAMBDA i : Is(i, "dstrat"))
      meant == Map(Sends, Meant)
      log == LogOf(st.logs, "r1")
      waiting == Len(st.chans["tx"].q)
  IN There("D1") =>
     /\ d.paused = (pr # <<>> /\ Is(LastOf(pr), "dpause"))
     /\ ss # <<>> => d.strat = OpAt(LastOf(ss)).st
     /\ \A k \in 1..Len(log) : InSeq(meant, log[k])
     \* nothing lost: with no strategy but "all" everything is either seen or waiting
     /\ (Where(LAMBDA i : Is(i, "dstrat")) = <<>>) => log = SubSeq(meant, 1, Len(meant) - waiting)

Answers == UNION {{[i |-> i, k |-> k, a |-> tr[i].res.ans[k]] : k \in 1..Len(tr[i].res.ans)} : i \in {j \in 1..Len(tr) : tr[j].res.k = "dstep"}}
\* D1 (named "N") has a processor "P" with the recorders r1 and (in a cockpit) r2
P17 ==
  LET reqs == Where(LAMBDA i : Is(i, "dreq")) IN
  /\ \A k \in 1..Len(reqs) :
       LET t == OpAt(reqs[k]).t
           as == {a \in Answers : a.a.t = t}
           left == \E i \in 1..Len(tr) : Is(i, "dcancel") /\ OpAt(i).t = t /\ ~\E a \in as : a.i < i
       IN \* every request is answered once (one that nobody waits for any more: to nobody)
          /\ IF left THEN as = {} ELSE Count(as) + (IF t \in DOMAIN st.tix THEN 1 ELSE 0) = 1
          /\ \A a \in as : ~a.a.err =>
               LET s == X(a.a.s, "N")
                   puts == SelectSeq(All, LAMBDA i : i < reqs[k] /\ Is(i, "put"))
                   v == X(X(s, "P"), "v1").d
                   n == IF v = <<>> THEN 0 ELSE v[1]
               IN \* everything attached before
                  /\ \A m \in 1..Len(puts) : OpAt(puts[m]).what = "obj" => Has(s, "P")
                  /\ \A m \in 1..Len(puts) : OpAt(puts[m]).what = "probe" => Has(s, OpAt(puts[m]).x.n)
                  \* one moment between request and answer; nothing half applied
                  /\ Has(s, "P") => /\ tr[reqs[k]].lg <= n /\ n <= tr[a.i].lg
                                    /\ WEq(X(X(s, "P"), "v1"), X(X(X(s, "P"), "K"), "v2"))
          \* answered only once all given before were carried out
          /\ (as # {} /\ There("D1")) => Len(Given) - Len(st.drvs["D1"].cmds) >= Count({i \in 1..reqs[k] : IsCmd(i)})
  \* an answer to a later request is not older
  /\ \A a, b \in Answers : (~a.a.err /\ ~b.a.err /\ (a.i < b.i \/ (a.i = b.i /\ a.k < b.k)) /\ Has(X(a.a.s, "N"), "P"))
       => Has(X(b.a.s, "N"), "P") /\ WLe(X(X(X(a.a.s, "N"), "P"), "v1"), X(X(X(b.a.s, "N"), "P"), "v1"))

HandlesBefore(i) == Count({j \in 1..(i - 1) : Is(j, "dnew") \/ Is(j, "dclone")}) - Count({j \in 1..(i - 1) : Is(j, "ddrop")})
P18 ==
  \A i \in 1..Len(tr) : Is(i, "dstep") =>
    LET r == tr[i].res
        earlier == {j \in 1..(i - 1) : Is(j, "dstep") /\ tr[j].res.at = "ended"}
        syncs == {j \in 1..(i - 1) : Is(j, "dreq") /\ OpAt(j).sync /\ ~\E a \in Answers : a.i < i /\ a.a.t = OpAt(j).t}
        probes == {OpAt(j).x.id : j \in {k \in 1..(i - 1) : Is(k, "put")}}
        pending == {OpAt(j).t : j \in {k \in 1..(i - 1) : Is(k, "dreq") /\ (~\E a \in Answers : a.i < i /\ a.a.t = OpAt(k).t)
                                                                      /\ (~\E m \in k..(i - 1) : Is(m, "dcancel") /\ OpAt(m).t = OpAt(k).t)}}
    IN /\ r.at = "ended" => HandlesBefore(i) = 0
       /\ (HandlesBefore(i) = 0 /\ syncs = {} /\ OpAt(i).times > 1) => r.at = "ended"
       /\ (r.at = "ended" /\ earlier = {}) => /\ r.rel = probes
                                              /\ pending = {r.ans[k].t : k \in 1..Len(r.ans)}
       /\ earlier # {} => r.ans = <<>> /\ r.rel = {}

(* ------------------------------------ C19 ------------------------------------- *)
\* M: a mount; a1 is attached below it; W[wi].where: for every processor that may be
\* attached the path of its group, its recorder and its transmitter; "r1" ... as usual
P19 ==
  "M" \in DOMAIN st.objs =>
  LET s == Snap("M") ws == W[wi].where
      passes == Where(LAMBDA i : Is(i, "process") /\ OpAt(i).id = "M")
      lastpass == IF passes = <<>> THEN 0 ELSE LastOf(passes)
  IN \A k \in 1..Len(ws) :
       LET puts == Where(LAMBDA i : Is(i, "put") /\ OpAt(i).child = ws[k].id)
           sent(i) == Map(Where(LAMBDA j : j < i /\ Is(j, "send") /\ OpAt(j).tx = ws[k].tx), Meant)
           log == LogOf(st.logs, ws[k].rec)
           it == AtPath(s, ws[k].path)
       IN /\ Len(it) <= 1
          /\ (puts # <<>> /\ puts[1] < lastpass) => Len(it) = 1 /\ log = sent(lastpass)
          /\ puts = <<>> => it = <<>> /\ log = <<>>

(* ------------------------------------ C21 ------------------------------------- *)
\* D1 shows everything about itself; the probe "pr" (attached first) reports what happened
P21 ==
  LET outs == W[wi].outs
      o(n, f) == IF n <= Len(outs) THEN outs[n][f] ELSE 0
      total(n, f) == FoldLeft(LAMBDA a, k : a + o(k, f), 0, [k \in 1..n |-> k])
      answered == {a \in Answers : ~a.a.err}
  IN \A a \in answered :
       LET g == X(a.a.s, "_metrix")
           cnt(n) == X(X(g, n), "count")
           \* passes before the answer, one of those that were possible
           lo == IF a.i = 1 THEN 0 ELSE tr[a.i - 1].pn
           before == CHOOSE k \in lo..tr[a.i].pn : WEq(cnt("collections_per_second"), WInt(k + 1)) \/ k = tr[a.i].pn
           drops == {k \in 1..before : o(k, 2) > 0}
           \* when was the k-th pass made
           whenOf(k) == LET is == {i \in 1..Len(tr) : tr[i].pn >= k} IN tr[CHOOSE i \in is : \A j \in is : i <= j].t
           busy == {k \in 1..before : o(k, 1) + o(k, 2) > 0}
           recent(S) == \E k \in S : tr[a.i].t - whenOf(k) <= 60000
           recentX(S) == \E k \in S : tr[a.i].t - whenOf(k) < 60000
       IN W[wi].single =>
          /\ WEq(cnt("collections_per_second"), WInt(before + 1))
          /\ WEq(cnt("observations_processed_per_second"), WInt(total(before, 1)))
          /\ WEq(cnt("observations_dropped_per_second"), WInt(total(before, 2)))
          /\ WEq(cnt("instruments_updated_per_second"), WInt(total(before, 3)))
          /\ WEq(cnt("snapshots_per_second"), WInt(Count({b \in answered : b.i < a.i \/ (b.i = a.i /\ b.k <= a.k)})))
          /\ WEq(X(X(g, "observations_enqueued"), "current"), WInt(o(before, 4)))
          /\ X(g, "dropped_observations_alarm") = recent(drops)
          /\ X(g, "inactivity_alarm") = ~(recentX(busy) \/ tr[a.i].t < 60000)

P21none == \A a \in Answers : ~a.a.err => ~Has(X(a.a.s, "N"), "_metrix")

(* -------------------------------- all together --------------------------------- *)
(* ------------------------------------ C23 ------------------------------------- *)
\* the instruments of the setup; each is an object of its own
DefOf(id) == LET i == CHOOSE i \in 1..NSetup : Is(i, "new") /\ OpAt(i).id = id IN OpAt(i).x.i
Asked == {OpAt(i).id : i \in {i \in 1..NSetup : Is(i, "new") /\ OpAt(i).x.k \in {"adp", "gadp"}}}
\* a value handed to a gauge directly counts like one observed
GaugeSet == [q \in {"G"} |-> Where(LAMBDA i : (Is(i, "obs") \/ Is(i, "gset")) /\ OpAt(i).id = q)]
GVal(i) == IF Is(i, "gset") THEN [k |-> "v", v |-> FromSrc(OpAt(i).v)] ELSE UpdAt(i)
GNow(q) ==
  LET abs == SelectSeq(q, LAMBDA i : AbsOf(GVal(i)) # <<>>)
      from == IF abs = <<>> THEN 0 ELSE abs[Len(abs)]
      ds == SelectSeq(q, LAMBDA i : i > from /\ IsD(GVal(i)))
  IN IF abs = <<>> /\ ds = <<>> THEN <<>>
     ELSE <<WAdd(IF abs = <<>> THEN W0 ELSE AbsOf(GVal(from))[1], SumOver(ds, LAMBDA i : GVal(i).v.x))>>
P23 ==
  \A id \in Asked :
    LET r == ReadInstr(st.objs[id].i, st.now)
        d == DefOf(id)
        s == SnapOf(st, st.objs[id], TRUE)
        os == Observed(id)
        since(t) == st.now - t
        dur == IF d.dur = <<>> THEN 60000 ELSE d.dur[1]
    IN /\ r.n = d.n
       \* title and description are shown with the name, values and nothing else under the name
       /\ (d.ti = <<>> <=> ~Has(s, "_title_" \o d.n)) /\ (d.ti # <<>> => X(s, "_title_" \o d.n) = d.ti[1])
       /\ (d.de = <<>> <=> ~Has(s, "_description_" \o d.n)) /\ (d.de # <<>> => X(s, "_description_" \o d.n) = d.de[1])
       /\ (r.v # <<>> => Has(s, d.n) /\ It(s, d.n) = r.v[1])
       /\ (d.k \in {"gauge", "flag", "disp"} /\ r.v = <<>> => ~Has(s, d.n))
       /\ CASE d.k = "counter" -> WEq(r.v[1].x, WMin(U64Max, WAdd(WSumSeq(d.pre), SumOver(os, LAMBDA i : Occ(UpdAt(i))))))
            [] d.k = "gauge" -> r.v = (IF GNow(GaugeSet[id]) = <<>> THEN <<>> ELSE <<[t |-> "i", x |-> GNow(GaugeSet[id])[1]]>>)
            [] d.k = "flag" -> LET bs == SelectSeq(os, LAMBDA i : UpdAt(i).k = "v" /\ UpdAt(i).v.t = "b")
                               IN r.v = (IF bs # <<>> THEN <<[t |-> "b", x |-> UpdAt(bs[Len(bs)]).v.x]>> ELSE IF d.init # <<>> THEN <<[t |-> "b", x |-> d.init[1]]>> ELSE <<>>)
            [] d.k = "stair" -> r.v[1].x = (d.inv # (os # <<>> /\ since(MaxT(os)) <= dur)) /\ r.set = <<dur, d.inv>>
            [] d.k = "occ" -> r.v[1].x = (d.inv # (os # <<>> /\ since(MaxT(os)) < dur)) /\ r.set = <<dur, d.inv>>
            [] d.k = "nonocc" -> r.v[1].x = (d.inv # (since(IF os = <<>> THEN 0 ELSE MaxT(os)) >= dur)) /\ r.set = <<dur, d.inv>>
            [] d.k = "disp" -> r.set = <<d.dur>> /\ r.rv = d.rv
            [] d.k = "last" -> r.set = <<d.mkzero>>
            [] OTHER -> r.v = <<>>
\* renaming: only the name changes, of only the component that was meant
P23n ==
  LET named(p(_)) == Where(LAMBDA i : Is(i, "direct") /\ p(OpAt(i).c))
      own == named(LAMBDA c : c.k = "set_name")
      nth(j) == named(LAMBDA c : c.k = "nth" /\ c.j = j /\ c.c.k = "set_name")
      pn(j, n) == IF nth(j) = <<>> THEN n ELSE OpAt(nth(j)[Len(nth(j))]).c.c.n
      s == Snap("X")
      n == IF own = <<>> THEN "x" ELSE OpAt(own[Len(own)]).c.n
      c == WInt(Len(Observed("X")))
  IN /\ Len(s) = 1 /\ s[1].n = n
     /\ LET g == s[1].v.x
        IN /\ Len(g) = 2 /\ {g[1].n, g[2].n} = {pn(1, "a"), pn(2, "b")}
           /\ \A k \in 1..2 : EqI(g[k].v.x, "c", c)
Holds(p) ==
  CASE p = "P01" -> P01 [] p = "P02" -> P02 [] p = "P03" -> P03 [] p = "P04" -> P04 [] p = "P05" -> P05 [] p = "P06" -> P06
    [] p = "P07" -> P07 [] p = "P08" -> P08 [] p = "P09" -> P09 [] p = "P10" -> P10 [] p = "P11" -> P11 [] p = "P12" -> P12 [] p = "P12proc" -> P12proc
    [] p = "P13" -> P13 [] p = "P14" -> P14 [] p = "P15" -> P15 [] p = "P16" -> P16 [] p = "P17" -> P17 [] p = "P18" -> P18 [] p = "P19" -> P19
    [] p = "P02b" -> P02b [] p = "P03u" -> P03u [] p = "P03m" -> P03m [] p = "P03e" -> P03e [] p = "P15d" -> P15d [] p = "P15q" -> P15q [] p = "P21none" -> P21none [] p = "P20" -> P20 [] p = "P21" -> P21 [] p = "P22" -> P22 [] p = "P23" -> P23 [] p = "P23n" -> P23n
\* once the world is set up
Inv == Len(tr) >= NSetup => \A k \in 1..Len(W[wi].invs) : Holds(W[wi].invs[k])
=============================================================================
