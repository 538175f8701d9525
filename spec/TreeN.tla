-------------------------------- MODULE TreeN --------------------------------
(* TreeNode: a value and a list of branches, each of them a tree of its own.  *)
(* The object of the specification is a tuple of independent trees.           *)
EXTENDS Integers, Sequences
Leaf(v) == [info |-> v, b |-> <<>>]
TInits(kind, i) == {[k \in 1..4 |-> Leaf(0)]}
R(o, tag, v) == {[o |-> o, tag |-> tag, v |-> v]}

RECURSIVE Depth(_), Dump(_), Flat(_), Desc(_)
MaxOf(S) == CHOOSE x \in S : \A y \in S : y <= x
\* edges of the longest way down
Depth(n) == IF n.b = <<>> THEN 0 ELSE 1 + MaxOf({Depth(n.b[i]) : i \in 1..Len(n.b)})
Dump(n) == <<n.info, Len(n.b)>> \o Flat([i \in 1..Len(n.b) |-> Dump(n.b[i])])
Flat(q) == IF q = <<>> THEN <<>> ELSE Head(q) \o Flat(Tail(q))
\* the dumps of all the descendants
Desc(n) == Flat([i \in 1..Len(n.b) |-> <<Dump(n.b[i])>> \o Desc(n.b[i])])

RECURSIVE Less(_, _), Sorted(_), Insert(_, _)
Less(a, b) == IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
              ELSE a[1] < b[1] \/ (a[1] = b[1] /\ Less(Tail(a), Tail(b)))
Insert(x, q) == IF q = <<>> THEN <<x>> ELSE IF Less(x, Head(q)) THEN <<x>> \o q ELSE <<Head(q)>> \o Insert(x, Tail(q))
Sorted(q) == IF q = <<>> THEN <<>> ELSE Insert(Head(q), Sorted(Tail(q)))

Bool(x) == IF x THEN 1 ELSE 0
Set(o, k, n) == [o EXCEPT ![k + 1] = n]
Add(o, k, n) == [o EXCEPT ![k + 1].b = Append(@, n)]
TApply(o, t, op, a) ==
  LET k == a[1]
      n == o[k + 1]
  IN
  CASE op \in {"mk", "mkm"} -> R(Set(o, k, Leaf(a[2])), "ok", <<>>)
    [] op = "mk0" -> R(Set(o, k, Leaf(0)), "ok", <<>>)
    [] op = "mk2" -> R(Set(o, k, Leaf(10 * a[2] + a[3])), "ok", <<>>)
    [] op \in {"addi", "addim"} -> R(Add(o, k, Leaf(a[2])), "ok", <<>>)
    [] op = "addn" -> R(Add(o, k, o[a[2] + 1]), "ok", <<>>)
    [] op = "addm" -> R(Set(Add(o, k, o[a[2] + 1]), a[2], Leaf(0)), "ok", <<>>)
    [] op = "cp" -> R(Set(o, k, o[a[2] + 1]), "ok", <<>>)
    [] op = "seti" -> R([o EXCEPT ![k + 1].info = a[2]], "ok", <<>>)
    [] op = "dump" -> R(o, "val", Dump(n))
    [] op = "leaf" -> R(o, "val", <<Bool(n.b = <<>>)>>)
    [] op = "depth" -> R(o, "val", <<Depth(n)>>)
    [] op = "all" -> LET q == Desc(n) IN R(o, "val", <<Len(q)>> \o Flat(Sorted(q)))
TSeen(o, n, v) == {}
TQuiet(o) == TRUE
=============================================================================
