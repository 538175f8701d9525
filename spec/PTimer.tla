-------------------------------- MODULE PTimer --------------------------------
(* Timer (kind 2) and PausableTimer (kind 0 paused, 1 playing at first), in    *)
(* microseconds.                                                               *)
EXTENDS Integers, Sequences
TInits(kind, i) == {[playing |-> i[1] # 0, total |-> 0]}
R(o, tag, v) == {[o |-> o, tag |-> tag, v |-> v]}
TApply(o, t, op, a) ==
  CASE op = "sleep" -> R(IF o.playing THEN [o EXCEPT !.total = @ + a[1]] ELSE o, "ok", <<>>)
    [] op = "play" -> R([o EXCEPT !.playing = TRUE], "ok", <<>>)
    [] op = "pause" -> R([o EXCEPT !.playing = FALSE], "ok", <<>>)
    [] op = "reset" -> R([o EXCEPT !.total = 0], "ok", <<>>)
    [] op = "el" -> R(o, "val", <<o.total>>)
    [] op = "elms" -> R(o, "val", <<o.total \div 1000>>)
    [] op = "playing" -> R(o, "val", <<IF o.playing THEN 1 ELSE 0>>)
TSeen(o, n, v) == {}
TQuiet(o) == TRUE
=============================================================================
