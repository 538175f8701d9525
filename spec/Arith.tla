------------------------------- MODULE Arith -------------------------------
(* What the fast arithmetic has to answer, from the definitions of remainder, *)
(* quotient, power, sum of a progression (numbers as decimal digits, Big).     *)
EXTENDS Big, TLC

Two == <<2>>

Even(n) == BDigit(n, 1) % 2 = 0

\* a power of 2: found doubling from 1
RECURSIVE Power2From(_, _)
Power2From(n, p) == IF BLess(p, n) THEN Power2From(n, BScale(p, 2)) ELSE BEq(p, n)
Power2(n) == Power2From(n, <<1>>)

Module(n, d) == BDivMod(n, d).r
Division(n, d) == BDivMod(n, d).q

\* lowest + (lowest + interval) + ... : steps numbers
Progression(l, i, s) == BDivMod(BMul(BAdd(BMul(Two, l), BMul(BSub(s, <<1>>), i)), s), Two).q

\* base multiplied exponent times, as far as it can be represented: by repeated squaring, remainder modulo 2^32
Mod32(n) == BDivMod(n, Pow32).r
RECURSIVE PowMod(_, _)
PowMod(b, e) ==
    IF BTrim(e) = <<>> THEN <<1>>
    ELSE LET h == BDivMod(e, Two)
             p == PowMod(Mod32(BMul(b, b)), h.q)
         IN  IF h.r = <<>> THEN p ELSE Mod32(BMul(b, p))

Fits(n) == BLess(n, Pow32)
Bool(b) == IF b THEN <<1>> ELSE <<>>

Answer(f, a) ==
    CASE f = "is_even" -> Bool(Even(a[1]))
      [] f = "is_power_of_2" -> Bool(Power2(a[1]))
      [] f = "fast_module" -> Module(a[1], a[2])
      [] f = "fast_division" -> Division(a[1], a[2])
      [] f = "arithmetic_progression_sum" -> Progression(a[1], a[2], a[3])
      [] f = "fast_exponential" -> PowMod(a[1], a[2])

ArithOk(row) ==
    LET want == Answer(row.f, row.a)
    IN  row.k = "ok" /\ (Fits(want) => BEq(row.r[1], want))
=============================================================================
