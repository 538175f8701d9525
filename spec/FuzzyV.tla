------------------------------- MODULE FuzzyV -------------------------------
(* Fuzzy: a value (0: the empty one) with a level.  The object of the         *)
(* specification is a tuple of independent ones.                              *)
EXTENDS Integers, Sequences, TLC
Unset == -20
Default == 0
FuzzyL == 20
SetL == 40
Hard == 60
F(v, l) == [v |-> v, l |-> l]
FInits(kind, i) == {[k \in 1..4 |-> F(0, Default)]}
R(o, tag, v) == {[o |-> o, tag |-> tag, v |-> v]}
Valid(f) == f.l >= Default
IsSet(f) == f.l >= FuzzyL
Same(f, g) == IF ~IsSet(f) /\ ~IsSet(g) THEN TRUE ELSE f = g
LevelName(l) == CASE l = Unset -> "UNSET" [] l = Default -> "DEFAULT" [] l = FuzzyL -> "FUZZY" [] l = SetL -> "SET"
                  [] l = Hard -> "HARD" [] OTHER -> ""
Text(v) == IF v = 0 THEN "" ELSE "v" \o ToString(v)
Bool(x) == IF x THEN 1 ELSE 0
Both(x) == <<Bool(x), Bool(~x)>>
FApply(o, t, op, a) ==
  LET k == a[1] + 1
      f == o[k]
      Put(g) == R([o EXCEPT ![k] = g], "ok", <<>>)
  IN
  CASE op = "new" -> Put(F(0, Default))
    [] op \in {"mk", "mkm", "setv"} -> Put(F(a[2], a[3]))
    [] op \in {"mkd", "mkmd", "asg", "asgm", "setvd"} -> Put(F(a[2], SetL))
    [] op \in {"cp", "cpc"} -> Put(o[a[2] + 1])
    [] op = "setl" -> Put(F(f.v, a[2]))
    [] op = "setld" -> Put(F(f.v, SetL))
    [] op = "unset" -> Put(F(f.v, Unset))
    [] op \in {"ref", "cast", "arrow"} -> Put(F(a[2], f.l))
    [] op = "get" -> R(o, "val", <<Bool(Valid(f)), Bool(IsSet(f)), f.l, f.v, f.v, f.v, f.v>>)
    [] op = "eq" -> R(o, "val", Both(Same(f, o[a[2] + 1])))
    [] op = "eqt" -> R(o, "val", Both(Valid(f) /\ f.v = a[2]))
    [] op = "lstr" -> R(o, "s" \o LevelName(f.l), <<>>)
    [] op = "str" -> R(o, "Fuzzy{Level(" \o LevelName(f.l) \o ") " \o Text(f.v) \o "}", <<>>)
FSeen(o, n, v) == {}
FQuiet(o) == TRUE
=============================================================================
