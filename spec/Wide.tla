------------------------------- MODULE Wide -------------------------------
(* Exact integers of any size. TLC's own integers have 32 bits, the values  *)
(* of this library 64, and rates and means need fractions as well.          *)
(* A wide integer is [s |-> sign, d |-> digits] with sign in {-1, 0, 1} and *)
(* digits the magnitude in base 10000, least significant first, without     *)
(* leading zeros (zero: s = 0, d = << >>).                                  *)
EXTENDS Integers, Sequences

WBase == 10000

RECURSIVE MTrim(_)
MTrim(a) == IF a = <<>> THEN a ELSE IF a[Len(a)] = 0 THEN MTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

\* magnitude comparison: -1, 0, 1
RECURSIVE MCmpFrom(_, _, _)
MCmpFrom(a, b, i) == IF i = 0 THEN 0 ELSE IF a[i] < b[i] THEN -1 ELSE IF a[i] > b[i] THEN 1 ELSE MCmpFrom(a, b, i - 1)
MCmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1 ELSE MCmpFrom(a, b, Len(a))

RECURSIVE MAddC(_, _, _)
MAddC(a, b, c) ==
  IF a = <<>> /\ b = <<>> THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET x == (IF a = <<>> THEN 0 ELSE a[1]) + (IF b = <<>> THEN 0 ELSE b[1]) + c
       IN  <<x % WBase>> \o MAddC(IF a = <<>> THEN a ELSE Tail(a), IF b = <<>> THEN b ELSE Tail(b), x \div WBase)
MAdd(a, b) == MAddC(a, b, 0)

\* a - b for a >= b
RECURSIVE MSubC(_, _, _)
MSubC(a, b, c) ==
  IF a = <<>> THEN <<>>
  ELSE LET x == a[1] - (IF b = <<>> THEN 0 ELSE b[1]) - c
       IN  IF x < 0 THEN <<x + WBase>> \o MSubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), 1)
           ELSE <<x>> \o MSubC(Tail(a), IF b = <<>> THEN b ELSE Tail(b), 0)
MSub(a, b) == MTrim(MSubC(a, b, 0))

\* times a small number (0 <= k < 100000)
RECURSIVE MMulK(_, _, _)
MMulK(a, k, c) ==
  IF a = <<>> THEN (IF c = 0 THEN <<>> ELSE IF c < WBase THEN <<c>> ELSE <<c % WBase, c \div WBase>>)
  ELSE LET x == a[1] * k + c IN <<x % WBase>> \o MMulK(Tail(a), k, x \div WBase)
RECURSIVE MMul(_, _)
MMul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE LET hi == MMul(a, Tail(b)) IN MTrim(MAdd(MMulK(a, b[1], 0), IF hi = <<>> THEN <<>> ELSE <<0>> \o hi))

\* divided by a small number (1 <= k <= 100000): quotient, from the top digit
RECURSIVE MDivK(_, _, _, _)
MDivK(a, k, i, r) ==
  IF i = 0 THEN <<>>
  ELSE LET x == r * WBase + a[i] IN Append(MDivK(a, k, i - 1, x % k), x \div k)
MQuot(a, k) == MTrim(MDivK(a, k, Len(a), 0))

Wide(s, d) == IF d = <<>> THEN [s |-> 0, d |-> <<>>] ELSE [s |-> s, d |-> d]
W0 == [s |-> 0, d |-> <<>>]
W1 == [s |-> 1, d |-> <<1>>]
RECURSIVE MOfInt(_)
MOfInt(n) == IF n = 0 THEN <<>> ELSE <<n % WBase>> \o MOfInt(n \div WBase)
WInt(n) == IF n = 0 THEN W0 ELSE IF n > 0 THEN [s |-> 1, d |-> MOfInt(n)] ELSE [s |-> -1, d |-> MOfInt(-n)]

WNeg(a) == [s |-> -(a.s), d |-> a.d]
WAbs(a) == IF a.s < 0 THEN WNeg(a) ELSE a
WCmp(a, b) ==
  IF a.s # b.s THEN (IF a.s < b.s THEN -1 ELSE 1)
  ELSE IF a.s >= 0 THEN MCmp(a.d, b.d) ELSE MCmp(b.d, a.d)
WLe(a, b) == WCmp(a, b) <= 0
WLt(a, b) == WCmp(a, b) < 0
WEq(a, b) == a.s = b.s /\ a.d = b.d
WMin(a, b) == IF WLe(a, b) THEN a ELSE b
WMax(a, b) == IF WLe(a, b) THEN b ELSE a
WAdd(a, b) ==
  IF a.s = 0 THEN b ELSE IF b.s = 0 THEN a
  ELSE IF a.s = b.s THEN [s |-> a.s, d |-> MAdd(a.d, b.d)]
  ELSE LET c == MCmp(a.d, b.d)
       IN  IF c = 0 THEN W0 ELSE IF c > 0 THEN [s |-> a.s, d |-> MSub(a.d, b.d)] ELSE [s |-> b.s, d |-> MSub(b.d, a.d)]
WSub(a, b) == WAdd(a, WNeg(b))
WMul(a, b) == IF a.s = 0 \/ b.s = 0 THEN W0 ELSE [s |-> a.s * b.s, d |-> MMul(a.d, b.d)]
WMulK(a, k) == IF a.s = 0 \/ k = 0 THEN W0 ELSE [s |-> a.s, d |-> MMulK(a.d, k, 0)]
\* division by a small positive number, truncating
WDivK(a, k) == Wide(a.s, MQuot(a.d, k))
\* times / divided by (WBase ^ n), truncating
WShl(a, n) == IF a.s = 0 THEN a ELSE [s |-> a.s, d |-> [i \in 1..n |-> 0] \o a.d]
WShr(a, n) == IF Len(a.d) <= n THEN W0 ELSE [s |-> a.s, d |-> SubSeq(a.d, n + 1, Len(a.d))]

I64Max == [s |-> 1, d |-> <<5807, 5477, 368, 3372, 922>>]
I64Min == [s |-> -1, d |-> <<5808, 5477, 368, 3372, 922>>]
U64Max == [s |-> 1, d |-> <<1615, 955, 737, 6744, 1844>>]
\* nearest representable value
SatI64(a) == IF WLt(I64Max, a) THEN I64Max ELSE IF WLt(a, I64Min) THEN I64Min ELSE a
SatU64(a) == IF WLt(U64Max, a) THEN U64Max ELSE IF a.s < 0 THEN W0 ELSE a

RECURSIVE WSumSeq(_)
WSumSeq(q) == IF q = <<>> THEN W0 ELSE WAdd(q[1], WSumSeq(Tail(q)))

(* Fractions are wide integers scaled by 10^16 (four digits of the base).  *)
Scale == 4
Scaled(a) == WShl(a, Scale)
\* equal up to 10^-9 absolute plus 10^-9 relative
Near(a, b) == WLe(WAbs(WSub(a, b)), WAdd([s |-> 1, d |-> <<0, 1000>>], WDivK(WShr(WAbs(a), 2), 10)))
=============================================================================
