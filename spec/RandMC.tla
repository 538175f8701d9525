-------------------------------- MODULE RandMC --------------------------------
(* Callers that ask for anything: the numbers of the sequence that were handed *)
(* out since the last seed are the first ones, each of them once.              *)
EXTENDS Rand, FiniteSets
CONSTANTS N, Calls
VARIABLES s, left, given
vars == <<s, left, given>>
L == INSTANCE Lin WITH ObjInits <- RInits, Apply <- RApply, Seen <- RSeen, ObjQuiet <- RQuiet
T == 1..N
Ops == {<<"seq", <<>>>>, <<"seed", <<1>>>>, <<"seed", <<2>>>>, <<"seeded", <<2>>>>, <<"pure", <<>>>>}
Init == s \in L!LInits("", <<N>>) /\ left = [t \in T |-> Calls] /\ given = <<>>
Call(t) == left[t] > 0 /\ (\E o \in Ops : s' \in L!LCall(s, t, o[1], o[2])) /\ left' = [left EXCEPT ![t] = @ - 1] /\ given' = given
Step(t) == s' \in L!LStep(s, t) /\ UNCHANGED left
           /\ given' = IF s.th[t].op = "seed" THEN <<>> ELSE IF s.th[t].op = "seq" THEN Append(given, s'.th[t].v) ELSE given
Ret(t) == s.th[t].ph = "done" /\ s' \in L!LRet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<left, given>>
Next == \E t \in T : Call(t) \/ Step(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars
Sequence == given = [k \in 1..Len(given) |-> <<s.o.seed, k>>]
Independent == [][\A t \in T : s'.o # s.o => \E u \in T : s.th[u].ph = "pend" /\ s.th[u].op \in {"seq", "seed"}]_vars
=============================================================================
