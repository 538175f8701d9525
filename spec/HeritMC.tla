------------------------------- MODULE HeritMC -------------------------------
EXTENDS Herit
CONSTANTS Objs
VARIABLES o, dead
Do(op, a) == \E r \in HApply(o, 0, op, a) : o' = r.o /\ dead' = dead
Init == o \in HInits("", <<>>) /\ dead = [k \in 1..Objs |-> 0]
S == {0, 1, 3, 5}
Next == \/ \E x \in S, ty \in 1..4 : Len(o.objs) < Objs /\ Static(x) \in IsA(ty) /\ Do("new", <<x, ty, 0>>)
        \/ \E x, y \in S, op \in {"copy", "mva"} : Do(op, <<x, y>>)
        \/ \E x \in S : Do("drop", <<x>>)
        \/ \E x \in S, v \in {0, 1} : Do("set", <<x, v>>)
        \/ \E e \in o.owe : o' \in HSeen(o, "dtor", e) /\ dead' = [dead EXCEPT ![e[1]] = @ + 1]
Spec == Init /\ [][Next]_<<o, dead>> /\ WF_<<o, dead>>(\E e \in o.owe : o' \in HSeen(o, "dtor", e) /\ dead' = [dead EXCEPT ![e[1]] = @ + 1])
\* what somebody refers to is alive and of a type that the slot can hold
Alive == \A x \in HSlots : o.sl[x] # 0 => At(o, x).st = "live" /\ Static(x) \in IsA(At(o, x).ty)
Once == \A k \in 1..Len(o.objs) : dead[k] <= 1 /\ (o.objs[k].st = "live" => dead[k] = 0)
NoLeak == \A k \in 1..Objs : (k <= Len(o.objs) /\ k \notin Refd(o)) ~> dead[k] = 1
\* a change of a value is seen through every slot of that object and only there
Shared == [][\A x \in HSlots : (o.sl[x] # 0 /\ o'.sl = o.sl) =>
               (Val(At(o, x)) # Val(At(o', x)) => \A y \in HSlots : o.sl[y] # 0 => (Val(At(o', y)) # Val(At(o, y)) <=> o.sl[y] = o.sl[x]))]_o
=============================================================================
