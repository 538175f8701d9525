-------------------------------- MODULE Big --------------------------------
(* Natural numbers of any size, as sequences of their decimal digits, least   *)
(* significant first and without zeros at the end (zero is the empty          *)
(* sequence or <<0>>).                                                         *)
EXTENDS Integers, Sequences, TLC

BigMax(a, b) == IF a > b THEN a ELSE b

RECURSIVE BTrim(_)
BTrim(a) == IF a # <<>> /\ a[Len(a)] = 0 THEN BTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

BDigit(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE Nat2Big(_)
Nat2Big(n) == IF n = 0 THEN <<>> ELSE <<n % 10>> \o Nat2Big(n \div 10)

RECURSIVE BAddFrom(_, _, _, _)
BAddFrom(a, b, i, c) ==
    IF i > BigMax(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
    ELSE LET d == BDigit(a, i) + BDigit(b, i) + c IN <<d % 10>> \o BAddFrom(a, b, i + 1, d \div 10)
BAdd(a, b) == BTrim(BAddFrom(a, b, 1, 0))

RECURSIVE BSubFrom(_, _, _, _)
BSubFrom(a, b, i, c) ==
    IF i > Len(a) THEN <<>>
    ELSE LET d == a[i] - BDigit(b, i) - c IN
         IF d < 0 THEN <<d + 10>> \o BSubFrom(a, b, i + 1, 1) ELSE <<d>> \o BSubFrom(a, b, i + 1, 0)
\* (for a >= b)
BSub(a, b) == BTrim(BSubFrom(a, b, 1, 0))

RECURSIVE BScaleFrom(_, _, _, _)
BScaleFrom(a, k, i, c) ==
    IF i > Len(a) THEN Nat2Big(c)
    ELSE LET d == a[i] * k + c IN <<d % 10>> \o BScaleFrom(a, k, i + 1, d \div 10)
\* a times the small number k (up to 10^8)
BScale(a, k) == BTrim(BScaleFrom(a, k, 1, 0))

BShift(a) == IF BTrim(a) = <<>> THEN <<>> ELSE <<0>> \o a

RECURSIVE BMulFrom(_, _, _)
BMulFrom(a, b, i) == IF i > Len(b) THEN <<>> ELSE BAdd(BScale(a, b[i]), BShift(BMulFrom(a, b, i + 1)))
BMul(a, b) == BTrim(BMulFrom(a, b, 1))

RECURSIVE BLessAt(_, _, _)
BLessAt(a, b, i) == IF i = 0 THEN FALSE ELSE IF a[i] # b[i] THEN a[i] < b[i] ELSE BLessAt(a, b, i - 1)
BLess(x, y) ==
    LET a == BTrim(x) b == BTrim(y)
    IN  IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE BLessAt(a, b, Len(a))
BEq(a, b) == BTrim(a) = BTrim(b)
BLeq(a, b) == ~BLess(b, a)

\* [q, r] with a = q * b + r and r < b (b not zero): digit by digit
RECURSIVE BDivDigit(_, _, _)
BDivDigit(r, b, q) == IF BLess(r, b) THEN [q |-> q, r |-> r] ELSE BDivDigit(BSub(r, b), b, q + 1)
RECURSIVE BDivFrom(_, _, _)
BDivFrom(a, b, i) ==
    IF i > Len(a) THEN [q |-> <<>>, r |-> <<>>]
    ELSE LET h == BDivFrom(a, b, i + 1)
             d == BDivDigit(BTrim(<<a[i]>> \o h.r), b, 0)
         IN  [q |-> <<d.q>> \o h.q, r |-> d.r]
BDivMod(a, b) == LET h == BDivFrom(a, b, 1) IN [q |-> BTrim(h.q), r |-> BTrim(h.r)]

RECURSIVE BPow(_, _)
BPow(a, n) == IF n = 0 THEN <<1>> ELSE BMul(a, BPow(a, n - 1))

\* 2 ^ 32 and 2 ^ 64
Pow32 == <<6, 9, 2, 7, 6, 9, 4, 9, 2, 4>>
Pow64 == <<6, 1, 6, 1, 5, 5, 9, 0, 7, 3, 7, 0, 4, 4, 7, 6, 4, 4, 8, 1>>
=============================================================================
