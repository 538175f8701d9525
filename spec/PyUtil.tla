-------------------------------- MODULE PyUtil --------------------------------
(* py_utils: a Timer (kind timer, 0.1 ms), loggers (kind log: the global *)
(* one first), each with its level, its format and how many handlers were      *)
(* added to it, and the debug helpers, that write in the global logger.        *)
EXTENDS Integers, Sequences
UInits(kind, i) ==
  IF kind = "timer" THEN {[total |-> 0]}
  ELSE {[lv |-> i, fm |-> [l \in DOMAIN i |-> 0], hd |-> [l \in DOMAIN i |-> 0], dis |-> 0]}
R(o, tag, v) == {[o |-> o, tag |-> tag, v |-> v]}
On(o, l, lev) == lev >= o.lv[l] /\ lev > o.dis
RECURSIVE Rep(_, _)
Rep(n, s) == IF n = 0 THEN <<>> ELSE s \o Rep(n - 1, s)
\* one line with the own format, one for each handler that was added
Lines(o, l, lev, m) ==
  IF On(o, l, lev) THEN <<l, o.fm[l], lev, m>> \o Rep(o.hd[l], <<l, 3, lev, m>>) ELSE <<>>
\* what one line of the global logger (a mark) becomes
Mark(o, k) == IF On(o, 1, 10) THEN Rep(1 + o.hd[1], <<k>>) ELSE <<>>
RECURSIVE Fact(_)
Fact(n) == IF n < 2 THEN 1 ELSE n * Fact(n - 1)
\* start, body (and what it calls), finish
RECURSIVE Nest(_, _)
Nest(o, n) == Mark(o, 1) \o <<2>> \o (IF n < 2 THEN <<>> ELSE Nest(o, n - 1)) \o Mark(o, 3)
Ran(o) == Nest(o, 1)
Attributes == <<<<1, 2>>, <<2, 4>>, <<1, 2, 5>>, <<>>>>      \* which of its attributes can be called, in order
UApply(o, t, op, a) ==
  CASE op = "sleep" -> R([o EXCEPT !.total = @ + a[1]], "ok", <<>>)
    [] op = "reset" -> R([o EXCEPT !.total = 0], "ok", <<>>)
    [] op = "el" -> R(o, "val", <<o.total>>)
    [] op \in {"lev", "std"} -> R([o EXCEPT !.lv[a[1]] = a[2]], "ok", <<>>)
    [] op = "dbg" -> R([o EXCEPT !.lv[a[1]] = 10], "ok", <<>>)
    [] op = "fmt" -> R([o EXCEPT !.fm[a[1]] = a[2]], "ok", <<>>)
    [] op = "dis" -> R([o EXCEPT !.dis = a[1]], "ok", <<>>)
    [] op = "addh" -> R([o EXCEPT !.hd[a[1]] = @ + 1], "ok", <<>>)
    [] op = "on" -> R(o, "val", <<IF On(o, a[1], a[2]) THEN 1 ELSE 0>>)
    [] op = "log" -> R(o, "val", Lines(o, a[1], a[2], a[3]))
    [] op = "intro" -> R(o, "val", IF On(o, 1, 10) THEN Rep(1 + o.hd[1], <<1>> \o Attributes[a[1]]) ELSE <<>>)
    [] op = "call" -> CASE a[1] = 1 -> R(o, "val", <<a[2] + 1>> \o Ran(o))
                        [] a[1] = 2 -> R(o, "raised", <<a[2]>> \o Mark(o, 1) \o <<2>>)
                        [] a[1] = 3 -> R(o, "val", <<Fact(a[2])>> \o Nest(o, a[2]))
                        [] a[1] = 4 -> R(o, "val", <<100 * a[2] + 42>> \o Ran(o))
                        [] a[1] = 5 -> R(o, "val", <<a[2]>> \o Ran(o))
                        [] a[1] = 6 -> R(o, "val", <<40 + a[2]>> \o Ran(o))
USeen(o, n, v) == {}
UQuiet(o) == TRUE
=============================================================================
