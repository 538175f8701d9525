-------------------------------- MODULE Pool --------------------------------
(* SlotThreadPool: registered tasks, a FIFO of emitted task ids, n workers    *)
(* that take an id and run its task.  The start and the end of a task are     *)
(* observed (O start k, O end k); how long a task takes is up to the client,  *)
(* and a task may itself call the pool (threads 11..).                       *)
EXTENDS Integers, Sequences, FiniteSets
Idle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>]
TaskIds == 1..6
\* init: client threads, workers
PInits(kind, i) ==
  {[n |-> i[2], en |-> FALSE, qen |-> TRUE, q |-> <<>>, slots |-> {}, taken |-> <<>>, run |-> <<>>, dead |-> FALSE,
    th |-> [t \in (0..i[1]) \cup {10 + k : k \in TaskIds} |-> Idle]]}
Workers == 100
PThreads(s) == DOMAIN s.th \cup {Workers}
PCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" /\ ~s.dead
  THEN {[s EXCEPT !.th[t] = [Idle EXCEPT !.ph = "pend", !.op = op, !.a = a]]}
  ELSE {}
Fin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v]
Ok(s, t) == Fin(s, t, "ok", <<>>)
Remove(q, k) == LET i == CHOOSE j \in 1..Len(q) : q[j] = k IN SubSeq(q, 1, i - 1) \o SubSeq(q, i + 1, Len(q))
Has(q, k) == \E j \in 1..Len(q) : q[j] = k

Busy(s) == Len(s.taken) + Len(s.run)
CanTake(s) == s.en /\ s.q # <<>> /\ Busy(s) < s.n

PStep(s, t) ==
  IF t = Workers
  THEN IF CanTake(s) THEN {[s EXCEPT !.q = Tail(@), !.taken = Append(@, Head(s.q))]} ELSE {}
  ELSE LET x == s.th[t] IN
  CASE x.ph = "pend" /\ x.op = "slot" ->
         IF x.a[1] \in s.slots THEN {Fin(s, t, "notallowed", <<>>)}
         ELSE {Ok([s EXCEPT !.slots = @ \cup {x.a[1]}], t)}
    [] x.ph = "pend" /\ x.op = "emit" ->
         IF x.a[1] \in s.slots THEN {Ok([s EXCEPT !.q = Append(@, x.a[1])], t)}
         ELSE {Fin(s, t, "notallowed", <<>>)}
    [] x.ph = "pend" /\ x.op = "enable" -> {Ok([s EXCEPT !.en = TRUE, !.qen = @ \/ ~s.en], t)}
    [] x.ph = "pend" /\ x.op \in {"disable", "del"} ->
         IF s.en \/ x.op = "del" THEN {[s EXCEPT !.en = FALSE, !.qen = FALSE, !.th[t].ph = "join"]}
         ELSE {Ok(s, t)}
    [] x.ph = "join" -> IF Busy(s) = 0 THEN {Ok([s EXCEPT !.dead = (x.op = "del")], t)} ELSE {}
    [] x.ph = "pend" /\ x.op = "wall" ->
         IF ~s.qen THEN {Fin(s, t, "disabled", <<>>)} ELSE {[s EXCEPT !.th[t].ph = "wait"]}
    [] x.ph = "wait" ->
         IF ~s.qen THEN {Fin(s, t, "disabled", <<>>)}
         ELSE IF s.q = <<>> THEN {Fin(s, t, "met", <<>>)}
         ELSE IF x.a[1] > 0 THEN {Fin(s, t, "timeout", <<>>)}
         ELSE {}
    [] x.ph = "pend" /\ x.op = "uid" -> {Fin(s, t, "fresh", <<>>)}
    [] OTHER -> {}
PRet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = Idle]} ELSE {}
PObs(s, o, a) ==
  CASE o = "start" -> IF Has(s.taken, a[1])
                      THEN {[s EXCEPT !.taken = Remove(@, a[1]), !.run = Append(@, a[1])]} ELSE {}
    [] o = "end" -> IF Has(s.run, a[1]) THEN {[s EXCEPT !.run = Remove(@, a[1])]} ELSE {}
    [] OTHER -> {}
PQuiet(s) == /\ s.taken = <<>>
             /\ ~CanTake(s)
             /\ \A t \in DOMAIN s.th : s.th[t].ph # "done" /\ PStep(s, t) = {}
=============================================================================
