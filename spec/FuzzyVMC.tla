------------------------------ MODULE FuzzyVMC ------------------------------
EXTENDS FuzzyV
CONSTANTS Values, Levels
VARIABLES o
MCLevels == {-20, 0, 20, 40, 60}
Init == o \in FInits("", <<>>)
Do(op, a) == \E r \in FApply(o, 0, op, a) : o' = r.o
Next == \E k \in 0..1 : \/ Do("unset", <<k>>) \/ Do("setld", <<k>>) \/ Do("new", <<k>>)
                       \/ \E v \in Values : \/ Do("setvd", <<k, v>>) \/ Do("ref", <<k, v>>)
                                            \/ \E l \in Levels : Do("setv", <<k, v, l>>)
                       \/ \E l \in Levels : Do("setl", <<k, l>>)
                       \/ Do("cp", <<k, 1 - k>>)
Spec == Init /\ [][Next]_o
Levels2 == \A k \in 1..2 : IsSet(o[k]) => Valid(o[k])
\* equality is an equivalence, and agrees with reading the values
Equiv == /\ \A k \in 1..2 : Same(o[k], o[k])
         /\ Same(o[1], o[2]) = Same(o[2], o[1])
         /\ (Same(o[1], o[2]) /\ IsSet(o[1])) => o[1].v = o[2].v
Apart == [][o'[1] = o[1] \/ o'[2] = o[2]]_o
=============================================================================
