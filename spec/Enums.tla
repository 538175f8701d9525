------------------------------- MODULE Enums -------------------------------
(* Y03: enumerations made from a list of names (by the macro or by the        *)
(* script), builders made from keys and values, and the macros they are made  *)
(* with.                                                                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* the value of a name in an enumeration (-1: none); the values are 0, 1, ... in the order of the names
Value(names, w) == LET ks == {k \in 1..Len(names) : names[k] = w} IN IF ks = {} THEN -1 ELSE (CHOOSE k \in ks : TRUE) - 1
Name(names, v) == names[v + 1]
Count(names) == [k \in 1..Len(names) |-> k - 1]

\* a builder: keys[i] gives values[i]; the values one key may give
Values(keys, values, w) == {values[i] : i \in {j \in 1..Len(keys) : keys[j] = w}}

Bool(b) == IF b THEN 1 ELSE 0
EnumsOk(row) ==
    LET a == row.a  r == row.r
        Is(w) == row.k = "ok" /\ r = w
    IN
    CASE row.f \in {"to_string", "print"} -> Is(<<Name(a[1], a[2])>>)
      [] row.f = "from_string" ->
            IF Value(a[1], a[2]) = -1 THEN row.k \in {"InitializationException", "std::invalid_argument"}
            ELSE Is(<<Value(a[1], a[2])>>)
      [] row.f = "try_string" ->
            IF Value(a[1], a[2]) = -1 THEN row.k = "ok" /\ Len(r) = 2 /\ r[1] = 0 ELSE Is(<<1, Value(a[1], a[2])>>)
      [] row.f = "count" -> Is(<<Len(a[1])>>)
      [] row.f \in {"names", "vector"} -> Is(<<a[1]>>)
      [] row.f = "values" -> Is(Count(a[1]))
      [] row.f = "enumerators" -> Is(Count(a[1]))
      \* keys, values, key wanted: what find tells and gives, and what the one that throws gives
      [] row.f = "builder" ->
            LET vs == Values(a[1], a[2], a[3]) IN
            IF vs = {} THEN row.k = "ok" /\ r = <<0, 0>>
            ELSE row.k = "ok" /\ Len(r) = 3 /\ r[1] = 1 /\ r[2] \in vs /\ r[3] = r[2]
      [] row.f = "find" -> LET vs == Values(a[1], a[2], a[3]) IN
            IF vs = {} THEN row.k = "ValueNotAllowedException" ELSE row.k = "ok" /\ Len(r) = 1 /\ r[1] \in vs
      [] row.f = "count_arguments" -> Is(<<a[1]>>)
      [] row.f = "for_each" -> Is(<<a[1]>>)
      [] row.f = "stringify" -> Is(<<a[1]>>)
      [] row.f = "max_min" ->
            LET M == IF a[1] < a[2] THEN a[2] ELSE a[1]   m == IF a[1] < a[2] THEN a[1] ELSE a[2]
            IN  Is(<<M, m, M + 1, m + 1, 2 * M, 2 * m, Bool(M = a[1]), Bool(m = a[1]), M, m>>)

\* laws
ASSUME \A n \in 1..4 : \A names \in [1..n -> {<<97>>, <<97, 98>>, <<>>, <<65>>, <<98>>}] :
         (\A i, j \in 1..n : i # j => names[i] # names[j]) =>
            /\ \A v \in 0..(n - 1) : Value(names, Name(names, v)) = v
            /\ \A w \in {<<97>>, <<97, 98>>, <<>>, <<65>>, <<98>>, <<99>>} :
                  IF \E k \in 1..n : names[k] = w THEN Name(names, Value(names, w)) = w ELSE Value(names, w) = -1
=============================================================================
