-------------------------------- MODULE Event --------------------------------
(* EventHandler, PeriodicEventHandler and MultipleEventHandler.               *)
(* Handler 0 is the one the clients set and unset; handlers 1..m belong to a  *)
(* MultipleEventHandler and relay their events to handler 0.  A handler with  *)
(* a period has an internal thread that raises an event every period.         *)
(*                                                                            *)
(* While the callback of an event runs, the handler is locked (lock[h], a     *)
(* stack because a callback may use the handler itself): its events are       *)
(* serialised and set and unset wait.  Start and end of every callback are    *)
(* observed: O cb k x, O cbe k x (callback k, event argument x).  O now t:    *)
(* the virtual clock has advanced.                                            *)
EXTENDS Integers, Sequences, FiniteSets

EIdle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>, k |-> 0]
RELAY == 1000
NEST == 10                  \* calls made by the callback run by thread t are those of thread NEST + t
TIMER == 30                 \* internal thread of handler h is TIMER + h

\* init: number of threads, strict (time only passes when nothing else can happen), period of each handler (0: none)
EInits(kind, i) ==
  LET H == 0..(Len(i) - 3)
      per == [h \in H |-> i[h + 3]]
  IN {[cb |-> [h \in H |-> 0], cnt |-> [h \in H |-> 0], lock |-> [h \in H |-> <<>>], per |-> per,
       next |-> [h \in H |-> -1], now |-> 0, strict |-> i[2] = 1, busy |-> -1, dead |-> FALSE,
       th |-> [t \in (0..i[1]) \cup {NEST + t : t \in 0..i[1]} \cup {TIMER + h : h \in {g \in H : per[g] > 0}}
                 |-> EIdle]]}

EThreads(s) == DOMAIN s.th
Handlers(s) == DOMAIN s.cb
IsTimer(t) == t >= TIMER
ECall(s, t, op, a) ==
  IF s.th[t].ph = "idle" /\ ~s.dead
  THEN {[s EXCEPT !.th[t] = [EIdle EXCEPT !.ph = "pend", !.op = op, !.a = a]]}
  ELSE {}
Fin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v]
Ok(s, t) == Fin(s, t, "ok", <<>>)
Free(s, h, t) == \/ s.lock[h] = <<>>
                 \/ NEST <= t /\ t < TIMER /\ s.lock[h][Len(s.lock[h])] = t - NEST
Push(q, t) == Append(q, t)
Pop(q) == SubSeq(q, 1, Len(q) - 1)
Waiters(s) == {t \in DOMAIN s.th : s.th[t].ph = "wait"}

\* the event of thread t on handler h is over
EvDone(s, t, h) ==
  IF IsTimer(t)
  THEN [s EXCEPT !.th[t] = EIdle, !.next[h] = s.now + s.per[h]]
  ELSE Ok(s, t)
EvH(s, t) == IF IsTimer(t) THEN t - TIMER ELSE IF s.th[t].op = "iev" THEN s.th[t].a[2] ELSE 0
EvX(s, t) == IF IsTimer(t) THEN 0 ELSE s.th[t].a[1]

Event(s, t) ==
  LET x == s.th[t]
      h == EvH(s, t)
  IN
  CASE x.ph = "pend" ->
         IF ~Free(s, h, t) THEN {}
         ELSE IF s.cb[h] = 0 THEN {EvDone(s, t, h)}
         ELSE {[s EXCEPT !.lock[h] = Push(@, t), !.th[t].ph = "call", !.th[t].k = s.cb[h]]}
    [] x.ph = "call" /\ x.k = RELAY ->
         IF ~Free(s, 0, t) THEN {}
         ELSE IF s.cb[0] = 0 THEN {[s EXCEPT !.th[t].ph = "ret"]}
         ELSE {[s EXCEPT !.lock[0] = Push(@, t), !.th[t].ph = "rcall", !.th[t].k = s.cb[0]]}
    [] x.ph = "rret" -> {[s EXCEPT !.cnt[0] = @ + 1, !.lock[0] = Pop(@), !.th[t].ph = "ret"]}
    [] x.ph = "ret" -> {EvDone([s EXCEPT !.cnt[h] = @ + 1, !.lock[h] = Pop(@)], t, h)}
    [] OTHER -> {}

\* h loses its callback: what is left is to stop its internal thread
Unset(s, t, h, then) == [s EXCEPT !.cb[h] = 0, !.busy = t, !.th[t].ph = then]
CanJoin(s, h) == s.per[h] = 0 \/ s.next[h] = -1 \/ s.th[TIMER + h].ph = "idle"

Step1(s, t) ==
  LET x == s.th[t] IN
  CASE x.op \in {"ev", "iev"} -> Event(s, t)
    [] x.ph = "pend" /\ x.op = "set" ->
         IF s.busy \notin {-1, t - NEST} \/ ~Free(s, 0, t) THEN {}
         ELSE {Ok([s EXCEPT !.cb[0] = x.a[1],
                            !.next[0] = IF s.per[0] > 0 /\ s.cb[0] = 0 THEN s.now + s.per[0] ELSE @], t)}
    [] x.ph = "pend" /\ x.op = "reg" ->
         LET h == x.a[1] IN
         {Ok([s EXCEPT !.cb[h] = RELAY,
                       !.next[h] = IF s.per[h] > 0 /\ s.cb[h] = 0 THEN s.now + s.per[h] ELSE @], t)}
    [] x.ph = "pend" /\ x.op = "del" /\ \E h \in Handlers(s) : h > 0 /\ s.cb[h] # 0 ->
         LET h == CHOOSE h \in Handlers(s) : h > 0 /\ s.cb[h] # 0 /\ \A g \in Handlers(s) : g > 0 /\ g < h => s.cb[g] = 0
         IN IF Free(s, h, t) THEN {[s EXCEPT !.cb[h] = 0, !.th[t].ph = "ijoin", !.th[t].k = h]} ELSE {}
    [] x.ph = "ijoin" ->
         IF CanJoin(s, x.k) THEN {[s EXCEPT !.next[x.k] = -1, !.th[t].ph = "pend"]} ELSE {}
    [] x.ph = "pend" /\ x.op \in {"unset", "del"} ->
         IF s.busy \notin {-1, t - NEST} THEN {}
         ELSE IF s.cb[0] = 0 THEN {Ok([s EXCEPT !.dead = (x.op = "del")], t)}
         ELSE IF Free(s, 0, t) THEN {Unset(s, t, 0, "join")} ELSE {}
    [] x.ph = "join" ->
         IF CanJoin(s, 0) THEN {[s EXCEPT !.next[0] = -1, !.th[t].ph = "uw"]} ELSE {}
    [] x.ph = "uw" ->
         IF Waiters(s) = {} THEN {Ok([s EXCEPT !.busy = -1, !.dead = (x.op = "del")], t)} ELSE {}
    [] x.ph = "pend" /\ x.op = "wait" -> {[s EXCEPT !.th[t].ph = IF s.cb[0] = 0 THEN "left" ELSE "wait"]}
    [] x.ph = "wait" ->
         IF s.cnt[0] >= x.a[1] \/ s.cb[0] = 0 THEN {[s EXCEPT !.th[t].ph = "left"]} ELSE {}
    [] x.ph = "left" -> {Fin(s, t, "val", <<IF s.cnt[0] >= x.a[1] THEN 1 ELSE 0>>)}
    [] x.ph = "pend" /\ x.op = "count" -> {Fin(s, t, "val", <<s.cnt[0]>>)}
    [] x.ph = "pend" /\ x.op = "icount" -> {Fin(s, t, "val", <<s.cnt[x.a[1]]>>)}
    [] x.ph = "pend" /\ x.op = "make" -> {Fin(s, t, IF x.a[1] > 0 THEN "ok" ELSE "rejected", <<>>)}
    [] x.ph = "pend" /\ x.op = "reset" -> {Ok([s EXCEPT !.cnt[0] = 0], t)}
    [] x.ph = "pend" /\ x.op = "decr" -> {Ok([s EXCEPT !.cnt[0] = IF @ > 0 THEN @ - 1 ELSE 0], t)}
    [] OTHER -> {}

EStep(s, t) ==
  IF IsTimer(t) /\ s.th[t].ph = "idle"
  THEN LET h == t - TIMER IN
       IF s.next[h] >= 0 /\ s.now >= s.next[h]
       THEN {[s EXCEPT !.th[t] = [EIdle EXCEPT !.ph = "pend", !.op = "ev"]]} ELSE {}
  ELSE Step1(s, t)

ERet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = EIdle]} ELSE {}

\* in strict mode the clock stands while some thread can go on: nobody is kept waiting for a period to elapse, and the
\* deadline of an internal thread that is idle is not missed
Calm(s) == \A t \in DOMAIN s.th : s.th[t].ph \notin {"done", "call", "rcall"} /\ EStep(s, t) = {}
TimePasses(s, T) ==
  /\ T >= s.now
  /\ (s.strict /\ T > s.now) => Calm(s)
  /\ s.strict => \A h \in Handlers(s) :
       (s.next[h] >= 0 /\ s.per[h] > 0) => (s.next[h] >= T \/ s.th[TIMER + h].ph # "idle")
\* an event of an internal handler that nobody sees, because handler 0 has no callback
Unseen(s, T) == {h \in Handlers(s) : /\ h > 0 /\ s.next[h] >= 0 /\ s.next[h] < T /\ s.cb[h] = RELAY /\ s.cb[0] = 0
                                     /\ s.lock[h] = <<>> /\ s.th[TIMER + h].ph = "idle"}
RECURSIVE Elapse(_, _)
Elapse(s, T) ==
  IF TimePasses(s, T) THEN {[s EXCEPT !.now = T]}
  ELSE LET U == {h \in Unseen(s, T) : TimePasses(s, s.next[h])}
       IN UNION {Elapse([s EXCEPT !.now = s.next[h], !.cnt[h] = @ + 1, !.next[h] = @ + s.per[h]], T) : h \in U}
EObs(s, o, a) ==
  CASE o = "cb" ->
         {[s EXCEPT !.th[t].ph = IF @ = "call" THEN "incb" ELSE "rincb"] :
            t \in {u \in DOMAIN s.th : s.th[u].k = a[1] /\ \/ s.th[u].ph = "call" /\ a[2] = EvX(s, u)
                                                           \/ s.th[u].ph = "rcall" /\ a[2] = 0}}
    [] o = "cbe" ->
         {[s EXCEPT !.th[t].ph = IF @ = "incb" THEN "ret" ELSE "rret"] :
            t \in {u \in DOMAIN s.th : s.th[u].k = a[1] /\ \/ s.th[u].ph = "incb" /\ a[2] = EvX(s, u)
                                                           \/ s.th[u].ph = "rincb" /\ a[2] = 0}}
    [] o = "now" -> Elapse(s, a[1])
    \* a thread is in a condition wait, so its call waits (or has been decided)
    [] o = "inside" -> IF s.th[a[1]].ph \notin {"idle", "pend"} THEN {s} ELSE {}
    [] OTHER -> {}
EQuiet(s) == /\ \A h \in Handlers(s) : s.next[h] = -1
             /\ \A t \in DOMAIN s.th : s.th[t].ph \notin {"done", "incb", "rincb", "rcall"} /\ EStep(s, t) = {}
             /\ \A t \in DOMAIN s.th : s.th[t].ph = "call" => s.th[t].k = RELAY
=============================================================================
