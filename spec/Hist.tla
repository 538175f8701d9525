-------------------------------- MODULE Hist --------------------------------
(* CommandHistoryHandler: the commands that were added (0: the empty one, not *)
(* recorded) and a position among them, one after the last when none is       *)
(* selected.                                                                  *)
EXTENDS Integers, Sequences
HInits(kind, i) == {[h |-> <<>>, pos |-> 1]}
R(o, tag, v) == {[o |-> o, tag |-> tag, v |-> v]}
HApply(o, t, op, a) ==
  CASE op = "add" -> IF a[1] = 0 THEN R(o, "ok", <<>>)
                     ELSE R([h |-> Append(o.h, a[1]), pos |-> Len(o.h) + 2], "ok", <<>>)
    \* at the oldest there is no other: the position stays
    [] op = "prev" -> IF o.pos = 1 THEN R(o, "val", <<0>>)
                      ELSE R([o EXCEPT !.pos = @ - 1], "val", <<o.h[o.pos - 1]>>)
    \* one step after the newest is the empty command, and the position stays there
    [] op = "next" -> IF o.pos >= Len(o.h) THEN R([o EXCEPT !.pos = Len(o.h) + 1], "val", <<0>>)
                      ELSE R([o EXCEPT !.pos = @ + 1], "val", <<o.h[o.pos + 1]>>)
HSeen(o, n, v) == {}
HQuiet(o) == TRUE
=============================================================================
