------------------------------- MODULE Signal -------------------------------
(* SignalManager and SignalEventHandler for one signal.  Signals are counted  *)
(* when they are received; the thread of the manager takes one at a time and  *)
(* calls every registered entry.  Entries are the handlers 1..HMAX with a     *)
(* callback, and callbacks registered directly (entries 11..).                *)
EXTENDS Integers, Sequences, FiniteSets
SIdle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>]
HMAX == 3
SILENT == 500          \* the default callback: not observed
SIG == 10
MGR == 50              \* calls made by a callback
Entries == (1..HMAX) \cup (11..13)
\* init: threads
SInits(kind, i) ==
  {[pend |-> 0, reg |-> {}, cb |-> [e \in Entries |-> 0], cnt |-> [e \in Entries |-> 0],
    made |-> {}, busy |-> [e \in Entries |-> -1],
    todo |-> {}, cur |-> 0, cph |-> "", ck |-> 0, on |-> FALSE, tk |-> FALSE, dead |-> FALSE,
    th |-> [t \in (0..i[1]) \cup {MGR} |-> SIdle]]}
SThreads(s) == DOMAIN s.th \cup {99}
SCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" /\ ~s.dead
  THEN {[s EXCEPT !.th[t] = [SIdle EXCEPT !.ph = "pend", !.op = op, !.a = a]]}
  ELSE {}
Fin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v]
Ok(s, t) == Fin(s, t, "ok", <<>>)
Running(s, e) == s.cur = e /\ s.cph # ""
Waiters(s, e) == {t \in DOMAIN s.th : s.th[t].ph = "wait" /\ s.th[t].a[1] = e}

\* the thread of the manager: on while it calls the entries for one signal
Mgr(s) ==
  IF ~s.on
  THEN IF s.tk THEN {[s EXCEPT !.tk = FALSE, !.on = TRUE, !.todo = s.reg]}
       ELSE IF s.pend > 0 THEN {[s EXCEPT !.pend = @ - 1, !.tk = TRUE]} ELSE {}
  ELSE IF s.cph = ""
  THEN IF s.todo = {} THEN {[s EXCEPT !.on = FALSE]}
       ELSE {IF s.cb[e] = 0 THEN [s EXCEPT !.todo = @ \ {e}]
             ELSE IF s.cb[e] = SILENT THEN [s EXCEPT !.todo = @ \ {e}, !.cnt[e] = @ + 1]
             ELSE [s EXCEPT !.todo = @ \ {e}, !.cur = e, !.cph = "call", !.ck = s.cb[e]] : e \in s.todo}
  ELSE IF s.cph = "ret" THEN {[s EXCEPT !.cnt[s.cur] = @ + 1, !.cph = "", !.cur = 0]}
  ELSE {}

SStep(s, t) ==
  IF t = 99 THEN Mgr(s)
  ELSE LET x == s.th[t]
           e == IF x.a = <<>> THEN 0 ELSE x.a[1]
       IN
  CASE x.ph = "pend" /\ x.op = "sig" -> {Ok([s EXCEPT !.pend = @ + 1], t)}
    [] x.ph = "pend" /\ x.op \in {"set", "mk"} ->
         IF s.busy[e] # -1 \/ Running(s, e) THEN {}
         ELSE LET k == IF x.op = "mk" THEN SILENT ELSE x.a[2]
              IN IF s.cb[e] # 0 THEN {Ok([s EXCEPT !.cb[e] = k], t)}
                 ELSE {[s EXCEPT !.cb[e] = k, !.busy[e] = t, !.th[t].ph = "reg"]}
    [] x.ph = "reg" -> IF s.on THEN {} ELSE {Ok([s EXCEPT !.reg = @ \cup {e}, !.busy[e] = -1], t)}
    [] x.ph = "pend" /\ x.op \in {"unset", "hdel"} ->
         IF s.busy[e] # -1 THEN {}
         ELSE IF s.cb[e] = 0 THEN {Ok(s, t)}
         ELSE IF Running(s, e) THEN {}
         ELSE {[s EXCEPT !.cb[e] = 0, !.busy[e] = t, !.th[t].ph = "unreg"]}
    [] x.ph = "unreg" -> IF s.on THEN {} ELSE {[s EXCEPT !.reg = @ \ {e}, !.th[t].ph = "uw"]}
    [] x.ph = "uw" -> IF Waiters(s, e) = {} THEN {Ok([s EXCEPT !.busy[e] = -1], t)} ELSE {}
    [] x.ph = "pend" /\ x.op = "count" -> {Fin(s, t, "val", <<s.cnt[e]>>)}
    [] x.ph = "pend" /\ x.op = "wait" -> {[s EXCEPT !.th[t].ph = IF s.cb[e] = 0 THEN "left" ELSE "wait"]}
    [] x.ph = "wait" -> IF s.cnt[e] >= x.a[2] \/ s.cb[e] = 0 THEN {[s EXCEPT !.th[t].ph = "left"]} ELSE {}
    [] x.ph = "left" -> {Fin(s, t, "val", <<IF s.cnt[e] >= x.a[2] THEN 1 ELSE 0>>)}
    \* callbacks registered directly: an id is given, and never given again
    [] x.ph = "pend" /\ x.op = "areg" ->
         IF s.on THEN {}
         ELSE {Fin([s EXCEPT !.reg = @ \cup {e}, !.cb[e] = x.a[2]], t, "fresh", <<>>)}
    [] x.ph = "pend" /\ x.op = "aunreg" ->
         IF s.on THEN {}
         ELSE IF e \in s.reg THEN {Ok([s EXCEPT !.reg = @ \ {e}, !.cb[e] = 0], t)}
         ELSE {Fin(s, t, "inconsistent", <<>>)}
    [] x.ph = "pend" /\ x.op = "del" -> IF s.on \/ s.tk THEN {} ELSE {Ok([s EXCEPT !.dead = TRUE], t)}
    [] OTHER -> {}
SRet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = SIdle]} ELSE {}
Arg(e) == IF e <= HMAX THEN SIG ELSE 0
SObs(s, o, a) ==
  CASE o = "cb" -> IF s.cph = "call" /\ s.ck = a[1] /\ a[2] = Arg(s.cur) /\ ~s.dead
                   THEN {[s EXCEPT !.cph = "in"]} ELSE {}
    [] o = "cbe" -> IF s.cph = "in" /\ s.ck = a[1] THEN {[s EXCEPT !.cph = "ret"]} ELSE {}
    \* a second has passed in which nobody did anything: every signal has been served
    [] o = "settled" -> IF s.pend = 0 /\ ~s.tk /\ ~s.on THEN {s} ELSE {}
    [] OTHER -> {}
SQuiet(s) == /\ s.pend = 0 \/ s.dead
             /\ ~s.on /\ ~s.tk
             /\ \A t \in DOMAIN s.th : s.th[t].ph # "done" /\ SStep(s, t) = {}
=============================================================================
