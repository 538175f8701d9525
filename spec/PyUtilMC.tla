------------------------------ MODULE PyUtilMC ------------------------------
(* The loggers, against what the history says: the last level, format and     *)
(* threshold, and the handlers added.                                         *)
EXTENDS PyUtil
CONSTANTS Steps
VARIABLES o, hist, out
vars == <<o, hist, out>>
Levels == {10, 20, 30}
Init == /\ \E v \in {10, 20} : o \in UInits("log", <<20, v>>)
        /\ hist = <<<<"lev", 1, 20>>, <<"lev", 2, o.lv[2]>>>> /\ out = <<>>
Do(op, a) == \E r \in UApply(o, 0, op, a) : /\ o' = r.o
                                            /\ out' = <<op, a, r.v>>
                                            /\ hist' = Append(hist, <<op>> \o a)
Next == /\ Len(hist) < Steps + 2
        /\ \E l \in 1..2 : \/ \E v \in Levels : Do("lev", <<l, v>>)
                           \/ Do("dbg", <<l>>)
                           \/ \E f \in 1..2 : Do("fmt", <<l, f>>)
                           \/ Do("addh", <<l>>)
                           \/ l = 1 /\ \E v \in {0, 20} : Do("dis", <<v>>)
                           \/ \E v \in Levels : Do("log", <<l, v, 0>>)
                           \/ l = 1 /\ Do("call", <<3, 2>>)
Spec == Init /\ [][Next]_vars
Last(P(_), default(_)) ==
  LET s == {i \in 1..(Len(hist) - 1) : P(hist[i])}
  IN IF s = {} THEN default(0) ELSE default(CHOOSE i \in s : \A j \in s : j <= i)
Level(l) == LET P(e) == e[1] \in {"lev", "dbg"} /\ e[2] = l
                D(i) == IF hist[i][1] = "dbg" THEN 10 ELSE hist[i][3]
            IN Last(P, D)
Fmt(l) == LET P(e) == e[1] = "fmt" /\ e[2] = l
              D(i) == IF i = 0 THEN 0 ELSE hist[i][3]
          IN Last(P, D)
Thr == LET P(e) == e[1] = "dis"
           D(i) == IF i = 0 THEN 0 ELSE hist[i][2]
       IN Last(P, D)
Added(l) == {i \in 1..(Len(hist) - 1) : hist[i] = <<"addh", l>>}
Number(s) == CHOOSE n \in 0..Steps : \E f \in [1..n -> s] : \A x \in s : \E i \in 1..n : f[i] = x /\ \A j \in 1..n : f[j] = x => i = j
\* once for the logger and once for each handler, if and only if the level is accepted
Printed == out # <<>> /\ out[1] = "log" =>
  LET l == out[2][1]
      v == out[2][2]
  IN IF v >= Level(l) /\ v > Thr
     THEN /\ Len(out[3]) = 4 * (1 + Number(Added(l)))
          /\ SubSeq(out[3], 1, 4) = <<l, Fmt(l), v, 0>>
          /\ \A i \in 1..Number(Added(l)) : SubSeq(out[3], 4 * i + 1, 4 * i + 4) = <<l, 3, v, 0>>
     ELSE out[3] = <<>>
\* the body runs the same, whatever is logged
Transparent == out # <<>> /\ out[1] = "call" =>
  out[3][1] = 2 /\ Number({i \in 2..Len(out[3]) : out[3][i] = 2}) = 2
Apart == [][\A l \in 1..2 : (out'[1] = "log" \/ out'[2][1] # l) /\ out'[1] # "call" => o'.lv[l] = o.lv[l] /\ o'.fm[l] = o.fm[l]]_vars
=============================================================================
