------------------------------- MODULE HistMC -------------------------------
EXTENDS Hist
CONSTANTS Cmds, Len_
VARIABLES o, last, calls
vars == <<o, last, calls>>
Init == o \in HInits("", <<>>) /\ last = [op |-> "", v |-> <<>>] /\ calls = 0
Do(op, a) == \E r \in HApply(o, 0, op, a) : o' = r.o /\ last' = [op |-> op, v |-> r.v]
Next == calls < Len_ /\ calls' = calls + 1
        /\ ((\E c \in Cmds : Do("add", <<c>>)) \/ Do("prev", <<>>) \/ Do("next", <<>>))
Spec == Init /\ [][Next]_vars
InRange == o.pos \in 1..(Len(o.h) + 1)
Recorded == last.v # <<>> /\ last.v # <<0>> => o.pos <= Len(o.h) /\ o.h[o.pos] = last.v[1]
Append1 == [][Len(o'.h) >= Len(o.h) /\ SubSeq(o'.h, 1, Len(o.h)) = o.h]_vars
Navigation == [][(last'.op # "add") => o'.h = o.h]_vars
\* back and forth returns to the same place
Inverse == \A r \in HApply(o, 0, "prev", <<>>) :
             o.pos > 1 => \A q \in HApply(r.o, 0, "next", <<>>) : q.o = o
=============================================================================
