------------------------------- MODULE EncMC -------------------------------
(* Laws of the definitions of Enc.                                             *)
EXTENDS Enc
CONSTANTS N, Vals
ASSUME \A k \in 1..6 : Units[k].v = BPow(<<0, 0, 0, 1>>, k - 1)
ASSUME \A k \in 7..11 : Units[k].v = BPow(<<4, 2, 0, 1>>, k - 6)
VARIABLES s, n
Init == s \in UNION {[1..k -> Vals] : k \in 0..N} /\ n \in {0, 1, 7, 10, 999, 1000, 1001, 1009, 1010, 1500, 9999, 99999, 123456,
                                                             999994, 999996, 1000000, 5010000, 12345678}
Next == UNCHANGED <<s, n>>
\* decoding recovers what was encoded, which has only the characters of the alphabet and a multiple of four of them
Inverse == Decode(Encode(s)) = s /\ Len(Encode(s)) % 4 = 0 /\ Len(Encode(s)) = 4 * ((Len(s) + 2) \div 3)
\* the printed quantity, read again, is the number that was printed but for half of the last decimal printed
RECURSIVE Val(_)
Val(a) == IF a = <<>> THEN 0 ELSE a[1] + (10 * Val(Tail(a)))
Closest ==
    \A t \in FromBytes(Nat2Big(n)) :
        LET w == ToBytes(t)
            unit == IF n < 1000 THEN 1 ELSE IF n < 1000000 THEN 1000 ELSE 1000000
            d == Val(w.n) - n
        IN  w.ok /\ d <= (unit \div 200) /\ -d <= (unit \div 100)
=============================================================================
