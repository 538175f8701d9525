-------------------------------- MODULE Wait --------------------------------
(* WaitHandler and its specialisations BooleanWaitHandler, IntWaitHandler and *)
(* CounterWaitHandler: a value, an enabled flag, and threads that wait for a  *)
(* condition on the value.                                                    *)
(*                                                                            *)
(* A call is: pend -> (wait | bd) -> done -> idle.                            *)
(* A wait that has been registered ("wait") is decided in one indivisible     *)
(* step that looks at the state: disabled first, then the condition, then the *)
(* timeout.  blocking_disable, stop_and_continue and the destructor keep the  *)
(* status of the handler to themselves (busy) until nobody waits.             *)
EXTENDS Integers, Sequences, FiniteSets

Rel(r, x, v) ==
  CASE r = 1 -> v = x
    [] r = 2 -> v > x
    [] r = 3 -> v >= x
    [] r = 4 -> v < x
    [] r = 5 -> v <= x
    [] OTHER -> v % 2 = x            \* an arbitrary predicate

Idle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>, lz |-> FALSE]

\* init: number of threads, value, enabled, threshold (counter only)
WInits(kind, i) ==
  {[val |-> i[2], en |-> i[3] = 1, thr |-> IF kind = "cnt" THEN i[4] ELSE 0,
    busy |-> -1, dead |-> FALSE, th |-> [t \in 0..i[1] |-> Idle]]}

WThreads(s) == DOMAIN s.th

WCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" /\ ~s.dead
  THEN {[s EXCEPT !.th[t] = [Idle EXCEPT !.ph = "pend", !.op = op, !.a = a]]}
  ELSE {}

IsWait(x) == x.op \in {"wait", "wdec", "wthr"}
\* the condition a waiting thread waits for
Cond(s, x) ==
  CASE x.op = "wait" -> Rel(x.a[1], x.a[2], s.val)
    [] x.op = "wdec" -> s.val > s.thr
    [] x.op = "wthr" -> s.val = s.thr
Timeout(x) == IF x.op = "wait" THEN x.a[3] ELSE x.a[1]

Waiting(s) == {t \in DOMAIN s.th : s.th[t].ph = "wait"}

Fin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v, !.th[t].lz = FALSE]
Ok(s, t) == Fin(s, t, "ok", <<>>)

\* a change of the value that notifies the waiting threads: whoever's condition holds must leave
Notify(s) == [s EXCEPT !.th = [t \in DOMAIN s.th |-> [s.th[t] EXCEPT !.lz = FALSE]]]
\* a change that does not: a thread whose condition did not hold (or was not told) may sleep on
Silent(s, old) ==
  [s EXCEPT !.th = [t \in DOMAIN s.th |->
      IF s.th[t].ph # "wait" THEN s.th[t]
      ELSE [s.th[t] EXCEPT !.lz = s.th[t].lz \/ ~Cond(old, s.th[t])]]]
SetVal(s, v, notify) ==
  IF notify THEN Notify([s EXCEPT !.val = v]) ELSE Silent([s EXCEPT !.val = v], s)
SetEn(s, b) == IF b THEN [s EXCEPT !.en = TRUE] ELSE Notify([s EXCEPT !.en = FALSE])

\* reason with which a registered wait may leave now
Decide(s, t) ==
  LET x == s.th[t] IN
  IF ~s.en THEN {Fin(s, t, "disabled", <<>>)}
  ELSE IF Cond(s, x)
       THEN {Fin(IF x.op = "wdec" THEN SetVal(s, s.val - 1, TRUE) ELSE s, t, "met", <<>>)}
       ELSE IF Timeout(x) > 0 THEN {Fin(s, t, "timeout", <<>>)}
            ELSE {}

WStep(s, t) ==
  LET x == s.th[t] IN
  CASE x.ph = "wait" -> Decide(s, t)
    [] x.ph = "bd" ->
         IF Waiting(s) # {} THEN {}
         ELSE {Ok([s EXCEPT !.busy = -1,
                            !.en = (x.op = "sac"),
                            !.dead = (x.op = "del")], t)}
    [] x.ph = "pend" /\ IsWait(x) ->
         IF ~s.en THEN {Fin(s, t, "disabled", <<>>)}
         ELSE {[s EXCEPT !.th[t].ph = "wait"]}
    [] x.ph = "pend" /\ x.op \in {"en", "dis"} ->
         IF s.busy # -1 THEN {} ELSE {Ok(SetEn(s, x.op = "en"), t)}
    [] x.ph = "pend" /\ x.op = "sac" /\ ~s.en ->
         IF s.busy # -1 THEN {} ELSE {Ok(SetEn(s, TRUE), t)}
    [] x.ph = "pend" /\ x.op \in {"bdis", "sac", "del"} ->
         IF s.busy # -1 THEN {} ELSE {[SetEn(s, FALSE) EXCEPT !.busy = t, !.th[t].ph = "bd"]}
    [] x.ph = "pend" /\ x.op = "isen" -> {Fin(s, t, "val", <<IF s.en THEN 1 ELSE 0>>)}
    [] x.ph = "pend" /\ x.op = "get" -> {Fin(s, t, "val", <<s.val>>)}
    [] x.ph = "pend" /\ x.op = "open" -> {Ok(SetVal(s, 1, TRUE), t)}
    [] x.ph = "pend" /\ x.op = "close" -> {Ok(SetVal(s, 0, FALSE), t)}
    [] x.ph = "pend" /\ x.op = "set" -> {Ok(SetVal(s, x.a[1], x.a[2] = 1), t)}
    [] x.ph = "pend" /\ x.op = "inc" -> {Ok(SetVal(s, s.val + 1, TRUE), t)}
    [] x.ph = "pend" /\ x.op = "dec" -> {Ok(SetVal(s, s.val - 1, TRUE), t)}
    [] OTHER -> {}

WRet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v
  THEN {[s EXCEPT !.th[t] = Idle]}
  ELSE {}

\* "inside": a thread is in a condition wait, so its call waits (or has been decided)
WObs(s, o, a) == IF o = "inside" /\ s.th[a[1]].ph \notin {"idle", "pend"} THEN {s} ELSE {}

\* t must take another step, sooner or later
Must(s, t) ==
  LET x == s.th[t] IN
  /\ x.ph # "idle"
  /\ x.ph = "done" \/ (WStep(s, t) # {} /\ ~(x.lz /\ s.en /\ Timeout(x) = 0))
WQuiet(s) == \A t \in DOMAIN s.th : ~Must(s, t)
=============================================================================
