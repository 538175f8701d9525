-------------------------------- MODULE Queue --------------------------------
(* DBQueueWaitHandler: producers and consumers over a counter (the elements   *)
(* ready to be consumed) and a queue.  produce puts the value in the queue    *)
(* and then counts it; consume takes a unit of the counter and then the value *)
(* at the head of the queue.                                                  *)
EXTENDS Integers, Sequences, FiniteSets

Idle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>]

QInits(kind, i) ==
  {[cnt |-> 0, q |-> <<>>, en |-> i[2] = 1, busy |-> -1, dead |-> FALSE, th |-> [t \in 0..i[1] |-> Idle]]}
QThreads(s) == DOMAIN s.th
QCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" /\ ~s.dead
  THEN {[s EXCEPT !.th[t] = [Idle EXCEPT !.ph = "pend", !.op = op, !.a = a]]}
  ELSE {}
Waiting(s) == {t \in DOMAIN s.th : s.th[t].ph = "wait"}
Fin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v]
Ok(s, t) == Fin(s, t, "ok", <<>>)

QStep(s, t) ==
  LET x == s.th[t] IN
  CASE x.ph = "pend" /\ x.op \in {"prod", "prodmv"} ->
         {[s EXCEPT !.q = Append(@, x.a[1]), !.th[t].ph = "pushed"]}
    [] x.ph = "pushed" -> {Ok([s EXCEPT !.cnt = @ + 1], t)}
    [] x.ph = "pend" /\ x.op \in {"cons", "wall"} ->
         IF ~s.en THEN {Fin(s, t, "disabled", <<>>)} ELSE {[s EXCEPT !.th[t].ph = "wait"]}
    [] x.ph = "wait" ->
         IF ~s.en THEN {Fin(s, t, "disabled", <<>>)}
         ELSE IF x.op = "cons" /\ s.cnt > 0 THEN {[s EXCEPT !.cnt = @ - 1, !.th[t].ph = "got"]}
         ELSE IF x.op = "wall" /\ s.cnt = 0 THEN {Fin(s, t, "met", <<>>)}
         ELSE IF x.a[1] > 0 THEN {Fin(s, t, "timeout", <<>>)}
         ELSE {}
    [] x.ph = "got" -> {Fin([s EXCEPT !.q = Tail(@)], t, "val", <<Head(s.q)>>)}
    [] x.ph = "bd" ->
         IF Waiting(s) # {} THEN {}
         ELSE {Ok([s EXCEPT !.busy = -1, !.en = (x.op = "sac"), !.dead = (x.op = "del")], t)}
    [] x.ph = "pend" /\ x.op = "ready" -> {Fin(s, t, "val", <<s.cnt>>)}
    [] x.ph = "pend" /\ x.op = "isen" -> {Fin(s, t, "val", <<IF s.en THEN 1 ELSE 0>>)}
    [] x.ph = "pend" /\ x.op \in {"en", "dis"} ->
         IF s.busy # -1 THEN {} ELSE {Ok([s EXCEPT !.en = (x.op = "en")], t)}
    [] x.ph = "pend" /\ x.op = "sac" /\ ~s.en ->
         IF s.busy # -1 THEN {} ELSE {Ok([s EXCEPT !.en = TRUE], t)}
    [] x.ph = "pend" /\ x.op \in {"bdis", "sac", "del"} ->
         IF s.busy # -1 THEN {} ELSE {[s EXCEPT !.en = FALSE, !.busy = t, !.th[t].ph = "bd"]}
    [] OTHER -> {}
QRet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = Idle]} ELSE {}
\* "inside": a thread is in a condition wait, so its call waits (or has been decided)
QObs(s, o, a) == IF o = "inside" /\ s.th[a[1]].ph \notin {"idle", "pend"} THEN {s} ELSE {}
QQuiet(s) == \A t \in DOMAIN s.th : s.th[t].ph # "done" /\ QStep(s, t) = {}
=============================================================================
