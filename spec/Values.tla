------------------------------- MODULE Values -------------------------------
(* Observed values: how the source values of an application become observed  *)
(* values and how those convert (src/observation.rs).                        *)
(*                                                                           *)
(* Source value  [vt |-> "i8".."i64" | "u8".."u64" | "us" | "f" | "b" | "d"  *)
(*               | "tu" | "td" | "inc" | "dec" | "incby" | "decby" | "chg",  *)
(*               x, u]                                                       *)
(* Observed value [t |-> "i" | "u" | "f" | "b" | "d" | "c", x, u]            *)
(* Float [nf |-> "no" | "nan" | "inf" | "-inf", neg, int, up, sc]: int is    *)
(* the magnitude without fraction, up tells whether the fraction is at least *)
(* one half, sc the value scaled by 10^16.                                   *)
EXTENDS Wide

UnitExp == [ns |-> 9, us |-> 6, ms |-> 3, s |-> 0]     \* units per second: 10^exp
RECURSIVE WMulPow10(_, _), WDivPow10(_, _)
WMulPow10(a, n) == IF n >= 4 THEN WMulPow10(WShl(a, 1), n - 4) ELSE WMulK(a, IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE 1000)
WDivPow10(a, n) == IF n >= 4 THEN WDivPow10(WShr(a, 1), n - 4) ELSE WDivK(a, IF n = 0 THEN 1 ELSE IF n = 1 THEN 10 ELSE IF n = 2 THEN 100 ELSE 1000)
\* convert a count of units `from` to units `to`, rounding down, saturating at the largest u64
ToUnit(x, from, to) ==
  LET e == UnitExp[to] - UnitExp[from] IN IF e >= 0 THEN SatU64(WMulPow10(x, e)) ELSE WDivPow10(x, -e)
\* a duration [secs |-> wide, nanos |-> int] in whole units
DurIn(d, u) == SatU64(WAdd(WMulPow10(d.secs, UnitExp[u]), WDivPow10(WInt(d.nanos), 9 - UnitExp[u])))

FromSrc(v) ==
  CASE v.vt \in {"i8", "i16", "i32", "i64"} -> [t |-> "i", x |-> v.x]
    [] v.vt \in {"u8", "u16", "u32", "u64", "us"} -> [t |-> "u", x |-> v.x]
    [] v.vt = "f" -> [t |-> "f", x |-> v.x]
    [] v.vt = "b" -> [t |-> "b", x |-> v.x]
    [] v.vt = "d" -> [t |-> "d", x |-> DurIn(v.x, "ns"), u |-> "ns"]
    [] v.vt = "tu" -> [t |-> "d", x |-> v.x, u |-> v.u]
    [] v.vt = "td" -> [t |-> "d", x |-> DurIn(v.x, v.u), u |-> v.u]
    [] v.vt = "inc" -> [t |-> "c", x |-> W1]
    [] v.vt = "dec" -> [t |-> "c", x |-> WNeg(W1)]
    [] v.vt = "incby" -> [t |-> "c", x |-> v.x]
    [] v.vt = "decby" -> [t |-> "c", x |-> WNeg(v.x)]
    [] v.vt = "chg" -> [t |-> "c", x |-> v.x]

IsDelta(v) == v.t = "c"

\* nearest whole number, halves away from zero (no infinities, no NaN)
Rounded(f) == LET m == IF f.up THEN WAdd(f.int, W1) ELSE f.int IN IF f.neg THEN WNeg(m) ELSE m
Pow63 == WAdd(I64Max, W1)
Pow64 == WAdd(U64Max, W1)
\* option values: << >> or <<x>>
\* (a float of exactly 2^63 counts as the largest i64: it is what the largest i64 is as a float)
FloatTo(f, top, lo, hi) ==
  CASE f.nf \in {"nan", "inf"} -> <<>>
    [] f.nf = "-inf" -> <<lo>>
    [] OTHER -> IF ~f.neg /\ WLt(top, f.int) THEN <<>>
                ELSE LET r == Rounded(f) IN <<IF WLt(r, lo) THEN lo ELSE IF WLt(hi, r) THEN hi ELSE r>>
ConvI64(v) ==
  CASE v.t = "i" -> <<v.x>>
    [] v.t = "u" -> IF WLe(v.x, I64Max) THEN <<v.x>> ELSE <<>>
    [] v.t = "f" -> FloatTo(v.x, Pow63, I64Min, I64Max)
    [] OTHER -> <<>>
ConvU64(v) ==
  CASE v.t = "i" -> IF v.x.s >= 0 THEN <<v.x>> ELSE <<>>
    [] v.t = "u" -> <<v.x>>
    [] v.t = "f" -> FloatTo(v.x, Pow64, W0, U64Max)
    [] OTHER -> <<>>
ConvBool(v) ==
  CASE v.t \in {"i", "u"} -> <<v.x.s # 0>>
    [] v.t = "b" -> <<v.x>>
    [] OTHER -> <<>>
\* the item a snapshot shows for the value
ConvItem(v) == IF v.t \in {"i", "u", "f", "b"} THEN <<[t |-> v.t, x |-> v.x]>> ELSE <<>>

\* ---- items of snapshots: [t, x], t in i u f b s g; g: sequence of [n, v] ----
\* observed values
SameValue(a, b) ==
  /\ a.t = b.t
  /\ CASE a.t \in {"i", "u", "c"} -> WEq(a.x, b.x)
       [] a.t = "d" -> WEq(a.x, b.x) /\ a.u = b.u
       [] a.t = "f" -> a.x.b = b.x.b
       [] OTHER -> a.x = b.x
SameFloat(a, b) == a.nf = b.nf /\ (a.nf # "no" \/ Near(a.sc, b.sc))
FloatOfW(w) == [nf |-> "no", sc |-> Scaled(w)]
RECURSIVE SameItem(_, _), SameItems(_, _), Pick(_, _)
\* the items named n of a level, in order
Pick(q, n) == SelectSeq(q, LAMBDA e : e.n = n)
Names(q) == {q[i].n : i \in 1..Len(q)}
\* the items of one name: each expected one is there, none besides
RECURSIVE SameBag(_, _)
SameBag(p, q) ==
  IF p = <<>> THEN q = <<>>
  ELSE \E i \in 1..Len(q) : /\ SameItem(p[1].v, q[i].v)
                            /\ SameBag(Tail(p), SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q)))
(* Levels are compared name by name: the order of the items of a level is    *)
(* not part of any property.                                                 *)
SameItems(a, b) ==
  /\ Len(a) = Len(b)
  /\ Names(a) = Names(b)
  /\ \A n \in Names(a) : LET p == Pick(a, n) q == Pick(b, n) IN Len(p) = Len(q) /\ SameBag(p, q)
\* e: expected, o: observed
SameItem(e, o) ==
  CASE e.t \in {"i", "u"} -> o.t \in {"i", "u"} /\ WEq(e.x, o.x)
    [] e.t = "f" -> o.t = "f" /\ SameFloat(e.x, o.x)
    [] e.t = "b" -> o.t = "b" /\ o.x = e.x
    [] e.t = "s" -> o.t = "s" /\ o.x = e.x
    [] e.t = "g" -> o.t = "g" /\ SameItems(e.x, o.x)
    \* expectations that leave room
    [] e.t = "any" -> \E i \in 1..Len(e.x) : SameItem(e.x[i], o)
    [] e.t = "frange" -> o.t = "f" /\ o.x.nf = "no"
                         /\ WLe(WSub(Scaled(e.lo), [s |-> 1, d |-> <<0, 1000>>]), WAdd(o.x.sc, WDivK(WShr(WAbs(o.x.sc), 2), 10)))
                         /\ WLe(WSub(o.x.sc, WDivK(WShr(WAbs(o.x.sc), 2), 10)), WAdd(Scaled(e.hi), [s |-> 1, d |-> <<0, 1000>>]))
    [] e.t = "fnear" -> \* the arithmetic of floating point is exact only relative to the values involved
         o.t = "f" /\ o.x.nf = "no"
         /\ WLe(WAbs(WSub(o.x.sc, e.x)), WAdd(WDivK(WShr(Scaled(e.m), 2), 10), [s |-> 1, d |-> <<0, 10>>]))
    [] e.t = "range" -> o.t \in {"i", "u"} /\ WLe(e.lo, o.x) /\ WLe(o.x, e.hi)
    [] e.t = "wild" -> o.t = e.k
    [] e.t = "fsq" -> \* a float whose square is e.x up to tolerance (given with double scale)
         o.t = "f" /\ o.x.nf = "no" /\ o.x.sc.s >= 0
         /\ LET sq == WShr(WMul(o.x.sc, o.x.sc), Scale) IN
            WLe(WAbs(WSub(sq, e.x)), WAdd([s |-> 1, d |-> <<0, 0, 10>>], WDivK(WShr(WAbs(e.m), 2), 1)))
    [] OTHER -> FALSE
=============================================================================
