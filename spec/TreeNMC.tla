------------------------------ MODULE TreeNMC ------------------------------
EXTENDS TreeN
CONSTANTS Calls
VARIABLES o, left
vars == <<o, left>>
Init == o \in TInits("", <<>>) /\ left = Calls
Do(op, a) == \E r \in TApply(o, 0, op, a) : o' = r.o
Next == left > 0 /\ left' = left - 1
        /\ \E k \in 0..1 : Do("mk", <<k, 1>>) \/ Do("addi", <<k, 2>>) \/ Do("seti", <<k, 3>>)
                          \/ (\E d \in 0..1 : Do("addn", <<k, d>>) \/ Do("cp", <<k, d>>))
                          \/ Do("addm", <<k, 1 - k>>)
Spec == Init /\ [][Next]_vars
V(op, k) == CHOOSE r \in TApply(o, 0, op, <<k>>) : TRUE
\* the views of a tree agree with each other
Views == \A k \in 0..1 :
  LET n == o[k + 1] IN
  /\ (V("leaf", k).v = <<1>>) = (V("depth", k).v = <<0>>)
  /\ (V("leaf", k).v = <<1>>) = (V("all", k).v = <<0>>)
  /\ V("all", k).v[1] * 2 = Len(V("dump", k).v) - 2
  /\ \A i \in 1..Len(n.b) : Depth(n.b[i]) < Depth(n)
\* what is done to a tree changes no other, unless it is moved
Apart == [][\A k \in 1..2 : o'[k] = o[k] \/ o'[3 - k] = o[3 - k] \/ (o'[k] = Leaf(0) /\ o'[3 - k].b # <<>>)
                                                      \/ (o'[3 - k] = Leaf(0) /\ o'[k].b # <<>>)]_vars
=============================================================================
