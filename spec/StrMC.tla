------------------------------- MODULE StrMC -------------------------------
(* Laws of the definitions of Str, on all short texts over a small alphabet.   *)
EXTENDS Str, TLC
CONSTANT N, M
VARIABLES s, d, b

Alphabet == {1, 2}
Texts(n) == UNION {[1..k -> Alphabet] : k \in 0..n}
AsSeq(f) == [k \in 1..Len(f) |-> f[k]]

Init == s \in Texts(N) /\ d \in Texts(M) /\ b \in Texts(M)
Next == UNCHANGED <<s, d, b>>

\* the pieces rejoin to the source, and none contains the delimiter
SplitLaws ==
    LET ps == Split(s, d)
    IN  /\ Len(ps) >= 1
        /\ Join(ps, d) = s
        /\ d # <<>> => \A k \in 1..Len(ps) : ~Contains(ps[k], d)
\* replacing is dividing and joining with something else
ReplaceLaws ==
    LET h == ReplaceAll(s, d, b)
    IN  /\ h.s = Join(Split(s, d), b)
        /\ h.n = Len(Split(s, d)) - 1
        /\ Len(h.s) = Len(s) + h.n * (Len(b) - Len(d))
        /\ (d = b => h.s = s)
        /\ (h.n = 0) = (d = <<>> \/ ~Contains(s, d))
FirstLaws ==
    /\ (Contains(s, d) => At(s, d, First(s, d)) /\ At(s, d, Last(s, d)) /\ First(s, d) <= Last(s, d))
    /\ StartsWith(s \o d, s) /\ EndsWith(s \o d, d)
    /\ ReplaceFirst(s \o d \o b, s, s) = s \o d \o b
MatchLaws ==
    /\ Match(s, s)
    /\ Match(<<Star>>, s)
    /\ Match(d \o <<Star>>, s) = StartsWith(s, d)
    /\ Match(<<Star>> \o d, s) = EndsWith(s, d)
    /\ Match(<<Star>> \o d \o <<Star>>, s) = Contains(s, d)
    /\ Match([k \in 1..Len(d) |-> Question], s) = (Len(s) = Len(d))
OrderLaws ==
    /\ ~(Before(s, d) /\ Before(d, s))
    /\ (s # d => Before(s, d) \/ Before(d, s))
    /\ (Before(s, d) /\ Before(d, b) => Before(s, b))
=============================================================================
