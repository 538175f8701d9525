--------------------------------- MODULE Rand ---------------------------------
(* RandomManager and TSafeRandomManager.  The numbers are named by the harness *)
(* after a fresh manager that is asked for nothing else: <<s, i>> is the i-th   *)
(* number of the sequence of seed s, and <<s, 0>> the seeded number of seed s.  *)
EXTENDS Integers, Sequences
RInits(kind, i) == {[seed |-> IF i = <<>> THEN 1 ELSE i[1], i |-> 0]}
R(o, tag, v) == {[o |-> o, tag |-> tag, v |-> v]}
RApply(o, t, op, a) ==
  CASE op \in {"seq", "rand"} -> R([o EXCEPT !.i = @ + 1], "val", <<o.seed, o.i + 1>>)
    [] op = "seed" -> R([seed |-> a[1], i |-> 0], "ok", <<>>)
    [] op \in {"seeded", "rands"} -> R(o, "val", <<a[1], 0>>)
    [] op \in {"pure", "randp"} -> R(o, "ok", <<>>)
RSeen(o, n, v) == {}
RQuiet(o) == TRUE
=============================================================================
