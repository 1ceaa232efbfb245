------------------------------- MODULE Instr -------------------------------
(* The instruments (src/instruments): state after each update and what a     *)
(* snapshot shows at a given time. Times are milliseconds, a duration of -1  *)
(* stands for the largest representable one.                                 *)
(*                                                                           *)
(* Update: [k |-> "n", c |-> wide] many occurrences, [k |-> "1"] one,        *)
(*         [k |-> "v", v |-> observed value] one with a value.               *)
EXTENDS Values, SequencesExt

Lasts(d, t) == d = -1 \/ t <= d      \* at most d has passed
Exceeds(d, t) == ~Lasts(d, t)        \* more than d has passed

\* A text that is there already stays: of several components with one name in
\* one group it is one of theirs that is shown.
AddText(into, label, txt) ==
  IF txt = <<>> THEN into
  ELSE LET new == [t |-> "s", x |-> txt[1]]
       IN  IF \E i \in 1..Len(into) : into[i].n = label
           THEN [i \in 1..Len(into) |-> IF into[i].n # label THEN into[i]
                 ELSE [n |-> label, v |-> [t |-> "any", x |-> IF into[i].v.t = "any" THEN Append(into[i].v.x, new) ELSE <<into[i].v, new>>]]]
           ELSE Append(into, [n |-> label, v |-> new])
\* titles and descriptions of named values carry the name; they appear once per level
PutTexts(into, d, desc) ==
  IF ~desc THEN into ELSE AddText(AddText(into, "_title_" \o d.n, d.ti), "_description_" \o d.n, d.de)
Item(n, t, x) == [n |-> n, v |-> [t |-> t, x |-> x]]
Group(n, items) == Item(n, "g", items)
Num(n, w) == Item(n, "i", w)
Flt(n, f) == Item(n, "f", f)
FltW(n, sc) == Item(n, "f", [nf |-> "no", sc |-> sc])
\* the mean of a sum over a number of values, exact up to 10^-9
MeanScaled(sum, cnt) == WDivK(Scaled(sum), cnt)

(* ------------------------------ counter --------------------------------- *)
\* pre: what was counted before it became part of anything
NewCounter(d) == [d |-> d, count |-> IF "pre" \in DOMAIN d THEN SatU64(WSumSeq(d.pre)) ELSE W0]
UpdCounter(i, u) == [i |-> [i EXCEPT !.count = SatU64(WAdd(@, IF u.k = "n" THEN u.c ELSE W1))], n |-> 1]
PutCounter(i, into, desc) == Append(PutTexts(into, i.d, desc), Num(i.d.n, i.count))

(* ------------------------------- gauge ----------------------------------- *)
(* Tracking: the window is made of one-second slots counted from creation.   *)
GSlot(g, now) == (now - g.born) \div 1000
GTrack(g, v, now) ==
  IF g.d.track = 0 THEN g
  ELSE LET s == GSlot(g, now)
           keep == SelectSeq(g.win, LAMBDA e : e.s > s - g.d.track)
           isnew == keep = <<>> \/ keep[Len(keep)].s # s
       IN IF isnew THEN [g EXCEPT !.win = Append(keep, [s |-> s, sum |-> v, n |-> 1, lo |-> v, hi |-> v])]
          ELSE LET e == keep[Len(keep)]
               IN [g EXCEPT !.win = [keep EXCEPT ![Len(keep)] =
                     [s |-> s, sum |-> WAdd(e.sum, v), n |-> e.n + 1, lo |-> WMin(e.lo, v), hi |-> WMax(e.hi, v)]]]
\* the next value, << >> if the observed value does not set one
GNext(g, v) ==
  CASE v.t = "c" -> <<SatI64(IF g.val = <<>> THEN v.x ELSE WAdd(g.val[1], v.x))>>
    [] v.t = "d" -> <<SatI64(ToUnit(v.x, v.u, g.d.unit))>>
    [] OTHER -> ConvI64(v)
GSet(g, v, now) ==
  LET nx == GNext(g, v) IN IF nx = <<>> THEN g ELSE GTrack([g EXCEPT !.val = nx], nx[1], now)
NewGauge(d, now) ==
  LET g == [d |-> d, born |-> now, val |-> <<>>, win |-> <<>>]
  IN  IF d.init = <<>> THEN g ELSE GSet(g, [t |-> "i", x |-> d.init[1]], now)
UpdGauge(g, u, now) == IF u.k = "v" THEN [i |-> GSet(g, u.v, now), n |-> 1] ELSE [i |-> g, n |-> 0]
GStats(g, pre, now) ==
  LET w == SelectSeq(g.win, LAMBDA e : e.s > GSlot(g, now) - g.d.track)
      c == g.val[1]
      k == Len(w)
      fold(f(_, _), sel(_)) == FoldLeft(LAMBDA acc, e : f(acc, sel(e)), sel(w[1]), Tail(w))
      cnt == FoldLeft(LAMBDA acc, e : acc + e.n, 0, w)
  IN IF k = 0
     THEN << Num(pre \o "peak", c), Num(pre \o "peak_min", c), FltW(pre \o "peak_avg", Scaled(c)),
             Num(pre \o "bottom", c), Num(pre \o "bottom_max", c), FltW(pre \o "bottom_avg", Scaled(c)),
             FltW(pre \o "avg", Scaled(c)) >>
     ELSE << Num(pre \o "peak", fold(WMax, LAMBDA e : e.hi)),
             Num(pre \o "peak_min", fold(WMin, LAMBDA e : e.hi)),
             FltW(pre \o "peak_avg", MeanScaled(fold(WAdd, LAMBDA e : e.hi), k)),
             Num(pre \o "bottom", fold(WMin, LAMBDA e : e.lo)),
             Num(pre \o "bottom_max", fold(WMax, LAMBDA e : e.lo)),
             FltW(pre \o "bottom_avg", MeanScaled(fold(WAdd, LAMBDA e : e.lo), k)),
             FltW(pre \o "avg", MeanScaled(fold(WAdd, LAMBDA e : e.sum), cnt)) >>
PutGauge(g, into, desc, now) ==
  LET base == PutTexts(into, g.d, desc)
      pre == IF g.d.group THEN "" ELSE g.d.n \o "_"
      vals == IF g.val = <<>> THEN <<>>
              ELSE <<Num(IF g.d.group THEN "current" ELSE g.d.n, g.val[1])>>
                   \o (IF g.d.track = 0 THEN <<>> ELSE GStats(g, pre, now))
  IN IF g.d.group THEN Append(base, Group(g.d.n, vals)) ELSE base \o vals

(* --------------------------- meter, value meter ---------------------------- *)
TickMs == 5000
Alpha == << [s |-> 1, d |-> <<6767, 5370, 5558, 799>>],      \* 1 - exp(-5/60)
            [s |-> 1, d |-> <<3825, 6178, 2854, 165>>],      \* 1 - exp(-5/300)
            [s |-> 1, d |-> <<1032, 1995, 4015, 55>>] >>      \* 1 - exp(-5/900)
NewMeter(d, now) == [d |-> d, count |-> W0, unc |-> W0, rates |-> <<W0, W0, W0>>, init |-> FALSE, next |-> now + TickMs]
EwmaOn(d) == <<d.r1, d.r5, d.r15>>
TickOnce(m) ==
  LET ir == WDivK(Scaled(m.unc), 5)      \* occurrences per second in this interval
      \* if nothing has ever been marked the rates stay zero; skip the arithmetic
      nr(i) == IF ~EwmaOn(m.d)[i] THEN W0
               ELSE IF ~m.init THEN ir
               ELSE IF m.rates[i].s = 0 /\ ir.s = 0 THEN W0
               ELSE WAdd(m.rates[i], WShr(WMul(Alpha[i], WSub(ir, m.rates[i])), Scale))
  IN [m EXCEPT !.rates = <<nr(1), nr(2), nr(3)>>, !.init = TRUE, !.unc = W0, !.next = @ + TickMs]
\* (1 - alpha)^(2^k): what is left of a rate after 2^(k-1) intervals in which nothing was marked
RECURSIVE DecayRow(_, _)
DecayRow(x, n) == IF n = 0 THEN <<>> ELSE <<x>> \o DecayRow(WShr(WMul(x, x), Scale), n - 1)
Decays == [i \in 1..3 |-> DecayRow(WSub(Scaled(W1), Alpha[i]), 16)]
RECURSIVE Decayed(_, _, _, _)
Decayed(r, i, n, k) ==
  IF n = 0 \/ r.s = 0 THEN r
  ELSE Decayed(IF n % 2 = 1 THEN WShr(WMul(r, Decays[i][k]), Scale) ELSE r, i, n \div 2, k + 1)
Ticked(m, now) ==
  IF m.next > now THEN m
  ELSE LET t == TickOnce(m)
           n == IF t.next > now THEN 0 ELSE ((now - t.next) \div TickMs) + 1
       IN IF n = 0 THEN t ELSE [t EXCEPT !.next = @ + TickMs * n, !.rates = [i \in 1..3 |-> Decayed(@[i], i, n, 1)]]
Marked(m, n, now) == LET t == Ticked(m, now)
                     IN [t EXCEPT !.count = SatI64(WAdd(@, n)), !.unc = SatU64(WAdd(@, n))]
UpdMeter(m, u, now) ==
  [i |-> CASE u.k = "n" -> IF u.c.s > 0 THEN Marked(m, SatI64(u.c), now) ELSE Ticked(m, now)
           [] OTHER -> Marked(m, W1, now),
   n |-> 1]
UpdVMeter(m, u, now) ==
  IF u.k # "v" THEN [i |-> m, n |-> 0]
  ELSE LET x == IF u.v.t = "d" THEN <<SatI64(ToUnit(u.v.x, u.v.u, m.d.unit))>> ELSE ConvI64(u.v)
       IN IF x = <<>> THEN [i |-> m, n |-> 0]
          ELSE IF x[1].s < 0 THEN [i |-> m, n |-> 0]
          ELSE [i |-> Marked(m, x[1], now), n |-> 1]
Cutoff(d) == IF d.cutf = <<>> THEN [s |-> 1, d |-> <<0, 0, 0, 10>>] ELSE d.cutf[1].sc
ShownRate(r, cut) ==
  LET z == [t |-> "f", x |-> [nf |-> "no", sc |-> W0]]
      v == [t |-> "f", x |-> [nf |-> "no", sc |-> r]]
      \* one or two occurrences a second are exact in floating point too: a rate equal to the cutoff is not below it
      same == WEq(r, cut) /\ (WEq(r, Scaled(W1)) \/ WEq(r, Scaled(WInt(2))))
  IN IF same THEN v ELSE IF Near(r, cut) THEN [t |-> "any", x |-> <<z, v>>] ELSE IF WLt(r, cut) THEN z ELSE v
PutMeter(m0, into, desc, now) ==
  LET m == Ticked(m0, now)
      rate(n, i) == IF EwmaOn(m.d)[i] THEN <<Group(n, <<[n |-> "rate", v |-> ShownRate(m.rates[i], Cutoff(m.d))]>>)>> ELSE <<>>
  IN Append(PutTexts(into, m.d, desc),
            Group(m.d.n, <<Num("count", m.count)>> \o rate("one_minute", 1) \o rate("five_minutes", 2) \o rate("fifteen_minutes", 3)))

(* ------------------------------ histogram --------------------------------- *)
(* All values since creation or reset, with the second each was handled in.  *)
NewHisto(d, now) == [d |-> d, born |-> now, vals |-> <<>>, last |-> now]
HValue(h, u) ==
  IF u.k # "v" THEN <<>> ELSE IF u.v.t = "d" THEN <<SatI64(ToUnit(u.v.x, u.v.u, h.d.unit))>> ELSE ConvI64(u.v)
UpdHisto(h0, u, now) ==
  LET h == IF h0.d.limit # <<>> /\ h0.d.reset /\ Exceeds(h0.d.limit[1], now - h0.last)
           THEN [h0 EXCEPT !.vals = <<>>, !.born = now] ELSE h0
      x == HValue(h, u)
  IN IF x = <<>> THEN [i |-> h, n |-> 0]
     ELSE [i |-> [h EXCEPT !.vals = Append(@, [x |-> x[1], s |-> (now - h.born) \div 1000]), !.last = now], n |-> 1]
\* quantiles in thousandths
Quants == << <<"p25", 250>>, <<"p50", 500>>, <<"p75", 750>>, <<"p95", 950>>, <<"p98", 980>>, <<"p99", 990>>, <<"p999", 999>> >>
HExact(h) == Len(h.vals) <= 1000 /\ \A i \in 1..Len(h.vals) : h.vals[i].s = h.vals[1].s
HItems(h) ==
  LET n == Len(h.vals)
      xs == [i \in 1..n |-> h.vals[i].x]
      lo == FoldLeft(WMin, xs[1], Tail(xs))
      hi == FoldLeft(WMax, xs[1], Tail(xs))
      sorted == SortSeq(xs, LAMBDA a, b : WLt(a, b))
      clamp(i) == IF i > n THEN n ELSE i
      \* q * n / 1000 rounded up is the zero-based index; an exact product may also take the next one
      idx(q) == LET p == q * n IN IF p % 1000 = 0 THEN {clamp(p \div 1000 + 1), clamp(p \div 1000 + 2)} ELSE {clamp(p \div 1000 + 2)}
      qv(q) == [t |-> "any", x |-> SetToSeq({[t |-> "i", x |-> sorted[i]] : i \in idx(q)})]
      mean == MeanScaled(WSumSeq(xs), n)
      var == WDivK(WSumSeq([i \in 1..n |-> LET df == WSub(Scaled(xs[i]), mean) IN WShr(WMul(df, df), Scale)]), n)
      maxabs == WMax(WAbs(lo), WAbs(hi))
  IN IF n = 0 THEN <<Num("count", W0)>>
     ELSE IF HExact(h)
     THEN << Num("count", WInt(n)), Num("max", hi), Num("min", lo), [n |-> "mean", v |-> [t |-> "fnear", x |-> mean, m |-> maxabs]],
             [n |-> "stddev", v |-> [t |-> "fsq", x |-> var, m |-> Scaled(WMul(maxabs, maxabs))]],
             Group("quantiles", [i \in 1..Len(Quants) |-> [n |-> Quants[i][1], v |-> qv(Quants[i][2])]]) >>
     ELSE << Num("count", WInt(n)), [n |-> "max", v |-> [t |-> "range", lo |-> lo, hi |-> hi]], [n |-> "min", v |-> [t |-> "range", lo |-> lo, hi |-> hi]],
             [n |-> "mean", v |-> [t |-> "frange", lo |-> lo, hi |-> hi]], [n |-> "stddev", v |-> [t |-> "wild", k |-> "f"]],
             Group("quantiles", [i \in 1..Len(Quants) |-> [n |-> Quants[i][1], v |-> [t |-> "range", lo |-> lo, hi |-> hi]]]) >>
PutHisto(h, into, desc, now) ==
  LET lim == h.d.limit
      \* at the very moment the limit is reached the histogram already shows as inactive
      act == lim = <<>> \/ lim[1] = -1 \/ now - h.last < lim[1]
      flags == IF lim # <<>> /\ h.d.show THEN <<Item("_inactive", "b", ~act), Item("_active", "b", act)>> ELSE <<>>
  IN Append(PutTexts(into, h.d, desc), Group(h.d.n, flags \o (IF act THEN HItems(h) ELSE <<>>)))
\* what holds for every histogram besides: checked on what was observed
HGroup(items, n) == LET p == Pick(items, n) IN p[1].v.x
HOrdered(g) ==
  \A i \in 1..Len(g) : g[i].n = "quantiles" =>
    LET q == g[i].v.x IN \A j \in 1..(Len(q) - 1) : WLe(q[j].v.x, q[j + 1].v.x)

(* ------------------------------- switches --------------------------------- *)
AltName(a, n) == CASE a.k = "pre" -> a.s \o n [] a.k = "post" -> n \o a.s [] OTHER -> a.s
PutSwitch(d, on, into, desc) ==
  Append(PutTexts(into, d, desc), Item(d.n, "b", on)) \o (IF d.alt = <<>> THEN <<>> ELSE <<Item(AltName(d.alt[1], d.n), "b", ~on)>>)
DurOf(d) == IF d.dur = <<>> THEN 60000 ELSE d.dur[1]

NewFlag(d) == [d |-> d, on |-> d.init]
UpdFlag(i, u) ==
  IF u.k = "v" /\ u.v.t \in {"b", "i", "u"} THEN [i |-> [i EXCEPT !.on = ConvBool(u.v)], n |-> 1] ELSE [i |-> i, n |-> 0]
PutFlag(i, into, desc) == IF i.on = <<>> THEN PutTexts(into, i.d, desc) ELSE PutSwitch(i.d, i.on[1], into, desc)

\* last: time of the last trigger, << >> if none yet
NewTimed(d, last) == [d |-> d, last |-> last]
UpdTimed(i, now) == [i |-> [i EXCEPT !.last = <<now>>], n |-> 1]
StairOn(i, now) == i.last # <<>> /\ Lasts(DurOf(i.d), now - i.last[1])
OccOn(i, now) == i.last # <<>> /\ (DurOf(i.d) = -1 \/ now - i.last[1] < DurOf(i.d))
NonOccOn(i, now) == DurOf(i.d) # -1 /\ now - i.last[1] >= DurOf(i.d)
PutStair(i, into, desc, now) == PutSwitch(i.d, StairOn(i, now) # i.d.inv, into, desc)
PutOcc(i, into, desc, now) == PutSwitch(i.d, OccOn(i, now) # i.d.inv, into, desc)
PutNonOcc(i, into, desc, now) == PutSwitch(i.d, NonOccOn(i, now) # i.d.inv, into, desc)

(* ------------------------------- displays --------------------------------- *)
NewDisp(d) == [d |-> d, val |-> d.rv, last |-> <<>>]
UpdDisp(i, u, now) ==
  LET x == IF u.k = "v" THEN ConvItem(u.v) ELSE <<>>
  IN IF x = <<>> THEN [i |-> i, n |-> 0] ELSE [i |-> [i EXCEPT !.val = x, !.last = <<now>>], n |-> 1]
DispValue(i, now) == IF i.last = <<>> \/ i.d.dur = <<>> \/ Lasts(i.d.dur[1], now - i.last[1]) THEN i.val ELSE i.d.rv
PutDisp(i, into, desc, now) ==
  LET v == DispValue(i, now) IN PutTexts(into, i.d, desc) \o (IF v = <<>> THEN <<>> ELSE <<[n |-> i.d.n, v |-> v[1]]>>)

PutLast(i, into, desc, now) ==
  PutTexts(into, i.d, desc) \o
  (IF i.last # <<>> THEN <<Num(i.d.n, WInt((now - i.last[1]) \div 1000))>> ELSE IF i.d.mkzero THEN <<Num(i.d.n, W0)>> ELSE <<>>)

(* ------------------------------- any of them -------------------------------- *)
NewInstr(d, now) ==
  CASE d.k = "counter" -> NewCounter(d)
    [] d.k = "gauge" -> NewGauge(d, now)
    [] d.k \in {"meter", "vmeter"} -> NewMeter(d, now)
    [] d.k = "histo" -> NewHisto(d, now)
    [] d.k = "flag" -> NewFlag(d)
    [] d.k \in {"stair", "occ", "last"} -> NewTimed(d, <<>>)
    [] d.k = "nonocc" -> NewTimed(d, <<now>>)
    [] d.k = "disp" -> NewDisp(d)
UpdInstr(i, u, now) ==
  CASE i.d.k = "counter" -> UpdCounter(i, u)
    [] i.d.k = "gauge" -> UpdGauge(i, u, now)
    [] i.d.k = "meter" -> UpdMeter(i, u, now)
    [] i.d.k = "vmeter" -> UpdVMeter(i, u, now)
    [] i.d.k = "histo" -> UpdHisto(i, u, now)
    [] i.d.k = "flag" -> UpdFlag(i, u)
    [] i.d.k \in {"stair", "occ", "nonocc", "last"} -> UpdTimed(i, now)
    [] i.d.k = "disp" -> UpdDisp(i, u, now)
PutInstr(i, into, desc, now) ==
  CASE i.d.k = "counter" -> PutCounter(i, into, desc)
    [] i.d.k = "gauge" -> PutGauge(i, into, desc, now)
    [] i.d.k \in {"meter", "vmeter"} -> PutMeter(i, into, desc, now)
    [] i.d.k = "histo" -> PutHisto(i, into, desc, now)
    [] i.d.k = "flag" -> PutFlag(i, into, desc)
    [] i.d.k = "stair" -> PutStair(i, into, desc, now)
    [] i.d.k = "occ" -> PutOcc(i, into, desc, now)
    [] i.d.k = "nonocc" -> PutNonOcc(i, into, desc, now)
    [] i.d.k = "last" -> PutLast(i, into, desc, now)
    [] i.d.k = "disp" -> PutDisp(i, into, desc, now)
(* ------------------- what the getters of an instrument tell ------------------ *)
\* value as a snapshot shows it, for those that can be asked; settings
ReadInstr(i, now) ==
  [n |-> i.d.n, ti |-> i.d.ti, de |-> i.d.de,
   v |-> CASE i.d.k = "counter" -> <<[t |-> "i", x |-> i.count]>>
           [] i.d.k = "gauge" -> IF i.val = <<>> THEN <<>> ELSE <<[t |-> "i", x |-> i.val[1]]>>
           [] i.d.k = "flag" -> IF i.on = <<>> THEN <<>> ELSE <<[t |-> "b", x |-> i.on[1]]>>
           [] i.d.k = "stair" -> <<[t |-> "b", x |-> StairOn(i, now) # i.d.inv]>>
           [] i.d.k = "occ" -> <<[t |-> "b", x |-> OccOn(i, now) # i.d.inv]>>
           [] i.d.k = "nonocc" -> <<[t |-> "b", x |-> NonOccOn(i, now) # i.d.inv]>>
           [] i.d.k = "disp" -> DispValue(i, now)
           [] OTHER -> <<>>,
   set |-> CASE i.d.k \in {"stair", "occ", "nonocc"} -> <<DurOf(i.d), i.d.inv>>
             [] i.d.k = "last" -> <<i.d.mkzero>>
             [] i.d.k = "disp" -> <<i.d.dur>>
             [] OTHER -> <<>>,
   rv |-> IF i.d.k = "disp" THEN i.d.rv ELSE <<>>]

=============================================================================
