------------------------------ MODULE ArithMC ------------------------------
(* The definitions themselves: the digit arithmetic agrees with TLC's own     *)
(* arithmetic and the definitions with their laws, on all small arguments.    *)
EXTENDS Arith
CONSTANT N
ASSUME Pow32 = BPow(Two, 32) /\ Pow64 = BPow(Two, 64)
VARIABLES x, y, z

Init == x \in 0..N /\ y \in 0..N /\ z \in 0..3
Next == UNCHANGED <<x, y, z>>

RECURSIVE Val(_)
Val(a) == IF a = <<>> THEN 0 ELSE a[1] + 10 * Val(Tail(a))
B(n) == Nat2Big(n)

Laws ==
    /\ Val(BAdd(B(x), B(y))) = x + y
    /\ Val(BMul(B(x), B(y))) = x * y
    /\ (x >= y => Val(BSub(B(x), B(y))) = x - y)
    /\ BLess(B(x), B(y)) = (x < y)
    /\ (y > 0 => Val(Module(B(x), B(y))) = x % y /\ Val(Division(B(x), B(y))) = x \div y)
    /\ Power2(B(x)) = (\E k \in 0..12 : x = 2 ^ k)
    /\ Even(B(x)) = (x % 2 = 0)

RECURSIVE Sum(_, _, _)
Sum(l, i, s) == IF s = 0 THEN 0 ELSE l + Sum(l + i, i, s - 1)
Progressions == z > 0 => Val(Progression(B(x), B(y), B(z))) = Sum(x, y, z)
Powers == x < 40 /\ y < 6 => Val(PowMod(B(x), B(y))) = (IF y = 0 THEN 1 ELSE x ^ y)
=============================================================================
