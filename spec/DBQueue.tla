------------------------------- MODULE DBQueue -------------------------------
(* DBQueue: pushes go to the background, everything else looks at the        *)
(* foreground, swap exchanges them.  An element is an integer.               *)
EXTENDS Integers, Sequences

QInits(kind, i) == {[fg |-> IF i = <<>> THEN <<>> ELSE [k \in 1..i[1] |-> -100 - k], bg |-> <<>>]}

R(q, tag, v) == {[o |-> q, tag |-> tag, v |-> v]}
B(b) == IF b THEN <<1>> ELSE <<0>>

QApply(q, t, op, a) ==
  CASE op = "push" -> R([q EXCEPT !.bg = Append(@, a[1])], "ok", <<>>)
    [] op = "swap" -> R([fg |-> q.bg, bg |-> <<>>], "ok", <<>>)
    [] op = "clear" -> R([fg |-> <<>>, bg |-> <<>>], "ok", <<>>)
    [] op = "empty" -> R(q, "val", B(q.fg = <<>>))
    [] op = "bempty" -> R(q, "val", B(q.fg = <<>> /\ q.bg = <<>>))
    [] op = "size" -> R(q, "val", <<Len(q.fg)>>)
    \* the next ones are only called after the same thread has seen a foreground that nobody else can have made empty since
    [] op = "front" -> IF q.fg = <<>> THEN R(q, "none", <<>>) ELSE R(q, "val", <<Head(q.fg)>>)
    [] op = "pop" -> IF q.fg = <<>> THEN R(q, "none", <<>>) ELSE R([q EXCEPT !.fg = Tail(@)], "ok", <<>>)
    [] op = "fap" -> IF q.fg = <<>> THEN R(q, "none", <<>>)
                     ELSE R([q EXCEPT !.fg = Tail(@)], "val", <<Head(q.fg)>>)
QSeen(q, n, v) == {}
QQuiet(q) == TRUE
=============================================================================
