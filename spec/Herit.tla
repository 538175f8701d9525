-------------------------------- MODULE Herit --------------------------------
(* Heritable<T>: slots 0..2 hold Heritable<P>, 3..4 Heritable<A>, 5 and 6 hold *)
(* Heritable<B>, where A and B derive from P, D from A, and P is not at the    *)
(* beginning of B, which derives from Z too.  A slot refers to an object, or   *)
(* is empty (0).  An object is destroyed (O dtor id type) when nobody refers   *)
(* to it, by the call that makes it so.                                        *)
EXTENDS Integers, Sequences, FiniteSets
HSlots == 0..6
HInits(kind, i) == {[objs |-> <<>>, sl |-> [x \in HSlots |-> 0], owe |-> {}]}
\* 1 P, 2 A : P, 3 B : Z, P, 4 D : A, 5 Z
IsA(ty) == CASE ty = 1 -> {1} [] ty = 2 -> {1, 2} [] ty = 3 -> {1, 3, 5} [] ty = 4 -> {1, 2, 4}
Static(x) == IF x <= 2 THEN 1 ELSE IF x <= 4 THEN 2 ELSE 3
Val(ob) == ob.v + 100 * ob.ty
Refd(o) == {o.sl[x] : x \in HSlots} \ {0}
Live(o) == {k \in 1..Len(o.objs) : o.objs[k].st = "live"}
\* what nobody refers to any more has to go
Settle(o) == LET g == Live(o) \ Refd(o) IN
  [o EXCEPT !.objs = [k \in 1..Len(o.objs) |-> IF k \in g THEN [o.objs[k] EXCEPT !.st = "dead"] ELSE o.objs[k]],
            !.owe = @ \cup {<<k, o.objs[k].ty>> : k \in g}]
R(o, tag, v) == {[o |-> Settle(o), tag |-> tag, v |-> v]}
B(b) == IF b THEN <<1>> ELSE <<0>>
At(o, x) == o.objs[o.sl[x]]

HApply(o, t, op, a) ==
  IF o.owe # {} THEN {} ELSE
  LET x == IF a = <<>> THEN 0 ELSE a[1]
      y == IF Len(a) > 1 THEN a[2] ELSE 0 IN
  CASE op = "new" -> R([o EXCEPT !.objs = Append(@, [ty |-> a[2], v |-> a[3], st |-> "live"]),
                                 !.sl[x] = Len(o.objs) + 1], "val", <<Len(o.objs) + 1>>)
    [] op = "make" -> R([o EXCEPT !.objs = Append(@, [ty |-> Static(x), v |-> a[2], st |-> "live"]),
                                  !.sl[x] = Len(o.objs) + 1], "val", <<Len(o.objs) + 1>>)
    [] op = "drop" -> R([o EXCEPT !.sl[x] = 0], "ok", <<>>)
    [] o.sl[x] = 0 -> R(o, "none", <<>>)
    \* from x to y, of the same static type or of another one that the object is
    [] op \in {"copy", "assign", "mvc", "mva"} ->
         IF Static(y) \notin IsA(At(o, x).ty) THEN R(o, "none", <<>>)
         ELSE IF op \in {"copy", "assign"} THEN R([o EXCEPT !.sl[y] = o.sl[x]], "ok", <<>>)
         ELSE R([o EXCEPT !.sl = [z \in HSlots |-> IF z = y THEN o.sl[x] ELSE IF z = x THEN 0 ELSE o.sl[z]]], "ok", <<>>)
    [] op = "set" -> R([o EXCEPT !.objs[o.sl[x]].v = a[2]], "ok", <<>>)
    [] op = "get" -> R(o, "val", <<o.sl[x], Val(At(o, x))>>)
    [] op = "can" -> R(o, "val", B(y \in IsA(At(o, x).ty)))
    [] op = "dyn" -> IF y \in IsA(At(o, x).ty) THEN R(o, "val", <<o.sl[x]>>) ELSE R(o, "badcast", <<>>)
    [] op = "dynset" -> IF y \in IsA(At(o, x).ty) THEN R([o EXCEPT !.objs[o.sl[x]].v = a[3]], "ok", <<>>)
                        ELSE R(o, "badcast", <<>>)
    [] op = "out" -> R(o, "val", <<Val(At(o, x))>>)
    [] op = "eqv" -> R(o, "val", B(Val(At(o, x)) = a[2]))
    [] op = "ltv" -> R(o, "val", B(Val(At(o, x)) < a[2]))
    [] o.sl[y] = 0 -> R(o, "none", <<>>)
    [] op = "eq" -> R(o, "val", B(Val(At(o, x)) = Val(At(o, y))))
    [] op = "lt" -> R(o, "val", B(Val(At(o, x)) < Val(At(o, y))))
HSeen(o, n, v) == IF n = "dtor" /\ <<v[1], v[2]>> \in o.owe THEN {[o EXCEPT !.owe = @ \ {<<v[1], v[2]>>}]} ELSE {}
HQuiet(o) == o.owe = {}
=============================================================================
