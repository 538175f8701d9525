-------------------------------- MODULE Cmd --------------------------------
(* CommandReader: each call asks for one more line of the terminal and gives  *)
(* the command and the arguments of the next line entered.                    *)
EXTENDS Stdin, Str

\* ---- a line and its arguments
Quote == 34
Blank == <<32>>
Closed(w) == Len(w) > 1 /\ w[Len(w)] = Quote
\* the pieces up to the first one that makes it closed (all of them if none does)
RECURSIVE Pieces(_)
Pieces(ps) ==
  IF ps = <<>> THEN <<>>
  ELSE IF ps[1] = <<>> \/ ps[1][1] # Quote THEN <<ps[1]>> \o Pieces(Tail(ps))
  ELSE LET ends == {k \in 1..Len(ps) : Closed(Join(SubSeq(ps, 1, k), Blank))}
           k == IF ends = {} THEN Len(ps) ELSE CHOOSE k \in ends : \A j \in ends : k <= j
           w == Join(SubSeq(ps, 1, k), Blank)
       IN  <<SubSeq(w, 2, IF ends = {} THEN Len(w) ELSE Len(w) - 1)>> \o Pieces(From(ps, k + 1))
Arguments(line) == Pieces(Split(line, Blank))

\* ---- the sets of keywords of the commands 1, 2, 3 (by number)
Keywords(b) ==
  CASE b = 0 -> << {<<97>>}, {<<98>>, <<97, 98>>}, {} >>                   \* a / b, ab / none
    [] b = 1 -> << {<<>>, <<97, 32, 98>>}, {<<98, 98>>}, {<<65>>} >>       \* "", "a b" / bb / A
    [] b = 2 -> << {}, {}, {} >>
    [] b = 3 -> << {<<97, 97>>}, {<<97>>, <<34>>}, {<<98>>, <<32>>, <<32, 97>>} >>   \* aa / a, " / b, " ", " a"
Command(b, w) == LET cs == {c \in 1..3 : w \in Keywords(b)[c]} IN IF cs = {} THEN 0 ELSE CHOOSE c \in cs : TRUE

\* the answer: the command (0: none), and each argument with its length before it
RECURSIVE Flatten(_)
Flatten(ws) == IF ws = <<>> THEN <<>> ELSE <<Len(ws[1])>> \o ws[1] \o Flatten(Tail(ws))
Answer(b, line) == LET as == Arguments(line) IN <<Command(b, as[1])>> \o Flatten(as)
----------------------------------------------------------------------------
\* init: threads, builder, then whatever
CInits(kind, i) ==
  {[b |-> i[2], act |-> 0, keys |-> <<>>, ed |-> NewLine, h |-> [lines |-> <<>>, pos |-> 0], l |-> "new", ign |-> FALSE,
    q |-> <<>>, dead |-> FALSE, end |-> FALSE, th |-> [t \in 0..i[1] |-> NIdle]]}
CThreads(s) == NThreads(s)
CCall(s, t, op, a) == NCall(s, t, op, a)

CListen(s) ==
  CASE s.l = "wait" ->
         IF s.end THEN {[s EXCEPT !.l = "stop"]}
         ELSE IF s.act > 0 THEN {[s EXCEPT !.act = @ - 1, !.l = "read", !.ed = NewLine]}
         ELSE {}
    [] s.l = "read" ->
         IF s.ed.eof THEN {[s EXCEPT !.l = "stop"]}
         ELSE IF s.ed.out = "line" THEN {[s EXCEPT !.q = Append(@, s.ed.line), !.l = "wait",
                                                   !.h = IF s.ign THEN @ ELSE HAdd(@, s.ed.line)]}
         ELSE IF s.ed.out = "break" THEN {[s EXCEPT !.q = Append(@, <<>>), !.l = "wait"]}
         ELSE IF s.keys = <<>> THEN {}
         ELSE LET r == Key(s.ed, s.h, Head(s.keys))
              IN {[s EXCEPT !.ed = r[1], !.h = r[2], !.keys = IF Head(@) = EOF THEN @ ELSE Tail(@)]}
    [] OTHER -> {}

CStep(s, t) ==
  IF t = Listener THEN CListen(s)
  ELSE LET x == s.th[t] IN
  CASE x.ph = "pend" /\ x.op = "read" -> {[s EXCEPT !.act = @ + 1, !.th[t].ph = "wait"]}
    [] x.ph = "wait" -> IF s.q = <<>> THEN {} ELSE {Fin([s EXCEPT !.q = Tail(@)], t, "cmd", Answer(s.b, Head(s.q)))}
    [] x.ph = "pend" /\ x.op = "more" -> {Ok([s EXCEPT !.act = @ + 1], t)}
    [] x.ph = "pend" /\ x.op = "ign" -> {Ok([s EXCEPT !.ign = (x.a[1] = 1)], t)}
    [] x.ph = "pend" /\ x.op = "key" -> {Ok([s EXCEPT !.keys = @ \o x.a], t)}
    [] x.ph = "pend" /\ x.op = "del" -> {[s EXCEPT !.end = TRUE, !.th[t].ph = "join"]}
    [] x.ph = "join" -> IF s.l = "off" THEN {Ok([s EXCEPT !.dead = TRUE], t)} ELSE {}
    [] OTHER -> {}
CRet(s, t, tag, v) == NRet(s, t, tag, v)
CObs(s, o, a) ==
  CASE o = "raw" -> IF s.l = "new" THEN {[s EXCEPT !.l = "wait"]} ELSE {}
    [] o = "cooked" -> IF s.l = "stop" THEN {[s EXCEPT !.l = "off"]} ELSE {}
    [] OTHER -> {}
CQuiet(s) == CListen(s) = {} /\ \A t \in DOMAIN s.th : s.th[t].ph # "done" /\ CStep(s, t) = {}
=============================================================================
