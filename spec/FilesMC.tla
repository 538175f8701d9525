------------------------------ MODULE FilesMC ------------------------------
(* Laws of Files: the lines put together are the file.                         *)
EXTENDS Files
CONSTANT N
VARIABLE t
Init == t \in {[k \in 1..Len(f) |-> f[k]] : f \in UNION {[1..n -> {LF, CR, 65}] : n \in 0..N}}
Next == UNCHANGED t
Ended(x) == x = <<>> \/ x[Len(x)] = LF
LineLaws ==
    /\ Whole(Lines(t)) = (IF Ended(t) THEN t ELSE t \o <<LF>>)
    /\ \A k \in 1..Len(Lines(t)) : ~Contains(Lines(t)[k], <<LF>>)
    /\ Len(Lines(t)) = Cardinality({k \in 1..Len(t) : t[k] = LF}) + (IF Ended(t) THEN 0 ELSE 1)
    /\ (ToStrings(t, TRUE, FALSE) = Lines(NoCR(t)) \/ (~Ended(t) /\ NoCR(t) # t))
    /\ Len(ToStrings(t, TRUE, FALSE)) = Len(Lines(t))
    /\ \A k \in 1..Len(ToStrings(t, TRUE, TRUE)) : ToStrings(t, TRUE, TRUE)[k] # <<>>
    /\ Whole(ToStrings(t, FALSE, TRUE)) = Whole(SelectSeq(Lines(t), LAMBDA l : l # <<>>))
=============================================================================
