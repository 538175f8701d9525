---------------------------------- MODULE Db ----------------------------------
(* SafeDatabase: a map from keys to values, and iterators, which live in      *)
(* numbered slots.  While there are iterators nothing in the map changes.     *)
EXTENDS Integers, Sequences, FiniteSets
Slots == 0..5
Nil == [none |-> TRUE]
End == 1000
\* m: function from a finite set of keys to values; it: slot -> 0 none, End, or a key (keys are > 0)
DbInits(kind, i) == {[m |-> <<>>, it |-> [x \in Slots |-> 0]]}
R(o, tag, v) == {[o |-> o, tag |-> tag, v |-> v]}
B(b) == IF b THEN <<1>> ELSE <<0>>
Keys(o) == DOMAIN o.m
Frozen(o) == \E x \in Slots : o.it[x] # 0
Min(S) == CHOOSE x \in S : \A y \in S : x <= y
Max(S) == CHOOSE x \in S : \A y \in S : x >= y
FirstFrom(o, k) == IF \E x \in Keys(o) : x >= k THEN Min({x \in Keys(o) : x >= k}) ELSE End
Before(o, k) == Max({x \in Keys(o) : x < k})
Put(o, k, v) == [o EXCEPT !.m = [x \in Keys(o) \cup {k} |-> IF x = k THEN v ELSE o.m[x]]]
Del(o, k) == [o EXCEPT !.m = [x \in Keys(o) \ {k} |-> o.m[x]]]
RECURSIVE Walk(_, _)
Walk(o, k) == LET f == FirstFrom(o, k) IN IF f = End THEN <<>> ELSE <<f, o.m[f]>> \o Walk(o, f + 1)
Writes == {"add", "addc", "mod", "aom", "aomc", "erase"}

DbApply(o, t, op, a) ==
  CASE op \in Writes ->
         LET k == a[1]
             has == k \in Keys(o)
             eff == CASE op \in {"add", "addc"} -> ~has [] op \in {"mod", "erase"} -> has [] OTHER -> TRUE
             ret == CASE op \in {"add", "addc", "aom", "aomc"} -> ~has [] OTHER -> has
         IN IF ~eff THEN R(o, "val", B(ret))
            ELSE IF Frozen(o) THEN {}
            ELSE R(IF op = "erase" THEN Del(o, k) ELSE Put(o, k, a[2]), "val", B(ret))
    [] op = "is" -> R(o, "val", B(a[1] \in Keys(o)))
    [] op = "val" -> IF a[1] \in Keys(o) THEN R(o, "val", <<o.m[a[1]]>>) ELSE R(o, "range", <<>>)
    [] op = "size" -> R(o, "val", <<Cardinality(Keys(o))>>)
    [] op = "walk" -> R(o, "val", Walk(o, 1))
    [] op = "count" -> R(o, "val", <<Cardinality({k \in Keys(o) : o.m[k] >= a[1]})>>)
    \* iterators; making one where there is another replaces it
    [] op = "begin" -> R([o EXCEPT !.it[a[1]] = FirstFrom(o, 1)], "ok", <<>>)
    [] op = "end" -> R([o EXCEPT !.it[a[1]] = End], "ok", <<>>)
    [] op = "find" -> R([o EXCEPT !.it[a[1]] = IF a[2] \in Keys(o) THEN a[2] ELSE End], "ok", <<>>)
    [] op \in {"copy", "move"} -> R([o EXCEPT !.it[a[2]] = o.it[a[1]]], "ok", <<>>)
    [] op = "drop" -> R([o EXCEPT !.it[a[1]] = 0], "ok", <<>>)
    [] op = "next" -> IF o.it[a[1]] \in {0, End} THEN R(o, "none", <<>>)
                      ELSE R([o EXCEPT !.it[a[1]] = FirstFrom(o, o.it[a[1]] + 1)], "ok", <<>>)
    [] op = "prev" -> IF o.it[a[1]] \in {0, FirstFrom(o, 1)} THEN R(o, "none", <<>>)
                      ELSE R([o EXCEPT !.it[a[1]] = Before(o, o.it[a[1]])], "ok", <<>>)
    [] op = "deref" -> IF o.it[a[1]] = 0 THEN R(o, "none", <<>>)
                       ELSE IF o.it[a[1]] = End THEN R(o, "end", <<>>)
                       ELSE R(o, "val", <<o.it[a[1]], o.m[o.it[a[1]]]>>)
    [] op = "same" -> IF o.it[a[1]] = 0 \/ o.it[a[2]] = 0 THEN R(o, "none", <<>>)
                      ELSE R(o, "val", B(o.it[a[1]] = o.it[a[2]]))
DbSeen(o, n, v) == {}
DbObjQuiet(o) == TRUE
=============================================================================
