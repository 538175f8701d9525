------------------------------ MODULE LogConsMC ------------------------------
EXTENDS LogCons
CONSTANTS Levels, Pats
VARIABLES o
MCLevels == {-20, 0, 40}
Init == o \in CInits("", <<>>)
Do(op, a) == \E r \in CApply(o, 0, op, a) : o' = r.o
Next == \/ \E k \in 0..2, l \in Levels : Do("setv", <<k, l>>)
        \/ \E p, q \in Pats, l, m, n \in Levels : Do("setf", <<p, l, q, m, p, n>>)
        \/ Do("con", <<>>)
Spec == Init /\ [][Next]_o
\* levels never go down, and what has a level above is not replaced
Monotone == [][/\ o'.vl >= o.vl /\ (o'.verb # o.verb => o'.vl >= o.vl)
               /\ \A k \in 1..3 : o'.pl[k] >= o.pl[k]]_o
\* a consumer with the empty filter accepts whatever its verbosity lets through, and nothing else
Filter == o.con # <<>> =>
  \A k \in 1..3, c, m \in 1..Len(Words) :
    LET x == Accepted(o.con[1], k, c, m) IN
    /\ (o.con[1].pat[k] = 1 => x = (k <= o.con[1].verb))
    /\ (x => k <= o.con[1].verb)
    /\ (x = Accepted(o.con[1], k, m, c))
=============================================================================
