--------------------------------- MODULE DbMC ---------------------------------
(* Clients that call anything, each of them with a slot for its iterator: the *)
(* map is frozen while there are iterators, they always point into the map,   *)
(* calls tell what they did, and writers go on when the iterators are gone.   *)
EXTENDS Db
CONSTANTS N, Calls, K
VARIABLES s, left
vars == <<s, left>>
L == INSTANCE Lin WITH ObjInits <- DbInits, Apply <- DbApply, Seen <- DbSeen, ObjQuiet <- DbObjQuiet
T == 1..N
Ops(t) == {<<op, <<k, v>>>> : op \in {"add", "mod", "aom"}, k \in 1..K, v \in {1, 2}}
          \cup {<<"erase", <<k>>>> : k \in 1..K} \cup {<<"find", <<t, k>>>> : k \in 1..K}
          \cup {<<"begin", <<t>>>>, <<"next", <<t>>>>, <<"copy", <<t, t + 2>>>>, <<"drop", <<t>>>>, <<"walk", <<>>>>}
Init == s \in L!LInits("", <<N>>) /\ left = [t \in T |-> Calls]
Holds(t) == \E x \in {t, t + 2} : s.o.it[x] # 0
\* (who holds an iterator would wait for itself if it wrote)
Call(t) == left[t] > 0 /\ (\E o \in Ops(t) : (o[1] \in Writes => ~Holds(t)) /\ s' \in L!LCall(s, t, o[1], o[2])) /\ left' = [left EXCEPT ![t] = @ - 1]
Step(t) == s' \in L!LStep(s, t) /\ UNCHANGED left
Ret(t) == s.th[t].ph = "done" /\ s' \in L!LRet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED left
\* iterators do not live for ever
Drop(t) == /\ s.th[t].ph = "idle" /\ left[t] = 0 /\ \E x \in {t, t + 2} : s.o.it[x] # 0 /\ s' = [s EXCEPT !.o.it[x] = 0]
           /\ UNCHANGED left
Next == \E t \in T : Call(t) \/ Step(t) \/ Ret(t) \/ Drop(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t)) /\ WF_vars(Drop(t))
Valid == \A x \in Slots : s.o.it[x] \in {0, End} \cup Keys(s.o)
FrozenStays == [][Frozen(s.o) => s'.o.m = s.o.m]_vars
Tells == [][\A t \in T : s.th[t].ph = "pend" /\ s'.th[t].ph = "done" =>
              LET op == s.th[t].op
                  k == s.th[t].a[1]
                  yes == s'.th[t].v = <<1>> IN
              /\ op = "add" => (yes <=> k \notin Keys(s.o)) /\ k \in Keys(s'.o)
                               /\ (IF yes THEN s'.o.m[k] = s.th[t].a[2] ELSE s'.o = s.o)
              /\ op = "mod" => (yes <=> k \in Keys(s.o)) /\ (IF yes THEN s'.o.m[k] = s.th[t].a[2] ELSE s'.o = s.o)
              /\ op = "aom" => (yes <=> k \notin Keys(s.o)) /\ s'.o.m[k] = s.th[t].a[2]
              /\ op = "erase" => (yes <=> k \in Keys(s.o)) /\ k \notin Keys(s'.o)]_vars
Served == \A t \in T : s.th[t].ph = "pend" ~> s.th[t].ph # "pend" \/ \E u \in T : left[u] > 0
=============================================================================
