-------------------------------- MODULE LogEv --------------------------------
(* Handlers of log events (LogEventHandler, LogSevereEventHandler, LogChecker).*)
(* Entries are queued by any thread if the verbosity lets them through; the    *)
(* log thread (thread LOG) takes them one by one and hands each one to the     *)
(* handlers in the order in which they were registered.  A handler without     *)
(* callback ignores it, a severe one also ignores what is below its threshold. *)
(* Kinds: 0 error, 1 warning, 2 info.  Start and end of every callback are     *)
(* observed: O cb k x, O cbe k x (callback k, entry x).                        *)
EXTENDS Integers, Sequences, FiniteSets

LOG == 40
NEST == 50                   \* calls made by a callback
LGIdle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>, k |-> 0]
NoHandler == [alive |-> FALSE, cb |-> 0, thr |-> 2, cnt |-> 0, lo |-> 0, hi |-> 0]

LGInits(kind, i) ==
  {[h |-> [x \in 1..3 |-> NoHandler], reg |-> <<>>, q |-> <<>>, verb |-> 0, run |-> 0, nq |-> 0, nd |-> 0,
    th |-> [t \in (0..i[1]) \cup {LOG, NEST} |-> LGIdle]]}

LGThreads(s) == DOMAIN s.th
LGCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" THEN {[s EXCEPT !.th[t] = [LGIdle EXCEPT !.ph = "pend", !.op = op, !.a = a]]} ELSE {}
LFin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v]
LOk(s, t) == LFin(s, t, "ok", <<>>)
LFree(s, h, t) == s.run # h \/ t = NEST
Entry(s) == s.q[1]                            \* [kind, x]

\* the log thread: th[LOG].a[1] is the position in reg of the handler that gets the entry now
LogStep(s) ==
  LET x == s.th[LOG] IN
  CASE x.ph = "idle" -> IF s.q = <<>> THEN {} ELSE {[s EXCEPT !.th[LOG] = [LGIdle EXCEPT !.ph = "give", !.a = <<1>>]]}
    [] x.ph = "give" ->
         IF x.a[1] > Len(s.reg) THEN {[s EXCEPT !.q = Tail(@), !.nd = @ + 1, !.th[LOG] = LGIdle]}
         ELSE LET h == s.reg[x.a[1]]
                  next == [s EXCEPT !.th[LOG].a[1] = @ + 1]
              IN IF ~s.h[h].alive \/ s.h[h].cb = 0 \/ Entry(s)[1] > s.h[h].thr THEN {next}
                 ELSE {[s EXCEPT !.run = h, !.th[LOG].ph = "call", !.th[LOG].k = s.h[h].cb]}
    [] x.ph = "ret" -> {[s EXCEPT !.h[s.run].cnt = @ + 1, !.run = 0, !.th[LOG].ph = "give", !.th[LOG].a[1] = @ + 1]}
    [] OTHER -> {}

\* a handler is registered between two entries
CanReg(s) == s.th[LOG].ph = "idle"
Make(s, t, h, thr, lo, hi) ==
  [s EXCEPT !.h[h] = [NoHandler EXCEPT !.alive = TRUE, !.thr = thr, !.lo = lo, !.hi = IF hi > lo THEN hi ELSE lo],
            !.reg = Append(@, h), !.verb = IF thr > 0 /\ s.th[t].op \in {"mks", "chk"} THEN thr ELSE @]
Waiting(s, h) == {t \in DOMAIN s.th : s.th[t].ph = "wait" /\ s.th[t].a[1] = h}

LGStep(s, t) ==
  IF t = LOG THEN LogStep(s) ELSE
  LET x == s.th[t]
      h == IF x.a = <<>> THEN 1 ELSE x.a[1]
      H == s.h[h] IN
  CASE x.ph = "pend" /\ x.op = "verb" -> {LOk([s EXCEPT !.verb = x.a[1]], t)}
    [] x.ph = "pend" /\ x.op = "log" ->
         {LOk(IF x.a[1] <= s.verb THEN [s EXCEPT !.q = Append(@, x.a), !.nq = @ + 1] ELSE s, t)}
    [] x.ph = "pend" /\ x.op = "mk" -> IF CanReg(s) THEN {LOk(Make(s, t, h, 2, 0, 0), t)} ELSE {}
    [] x.ph = "pend" /\ x.op = "mkc" ->
         IF CanReg(s) THEN {[Make(s, t, h, 2, 0, 0) EXCEPT !.th[t].ph = "setk"]} ELSE {}
    [] x.ph = "pend" /\ x.op = "mks" ->
         IF CanReg(s) THEN {[Make(s, t, h, x.a[3], 0, 0) EXCEPT !.th[t].ph = "setk"]} ELSE {}
    [] x.ph = "pend" /\ x.op = "chk" ->
         IF CanReg(s) THEN {[Make(s, t, h, x.a[2], x.a[3], x.a[4]) EXCEPT !.th[t].ph = "setk"]} ELSE {}
    [] x.ph = "setk" \/ (x.ph = "pend" /\ x.op = "set") ->
         IF LFree(s, h, t) THEN {LOk([s EXCEPT !.h[h].cb = IF x.op = "chk" THEN 100 ELSE x.a[2]], t)} ELSE {}
    [] x.ph = "pend" /\ x.op \in {"unset", "hdel"} ->
         IF LFree(s, h, t)
         THEN {[s EXCEPT !.h[h].cb = 0, !.h[h].alive = (@ /\ x.op = "unset"), !.th[t].ph = "uw"]} ELSE {}
    [] x.ph = "uw" -> IF Waiting(s, h) = {} THEN {LOk(s, t)} ELSE {}
    [] x.ph = "pend" /\ x.op = "count" -> {LFin(s, t, "val", <<H.cnt>>)}
    [] x.ph = "pend" /\ x.op = "wait" -> {[s EXCEPT !.th[t].ph = IF H.cb = 0 THEN "left" ELSE "wait"]}
    [] x.ph = "wait" -> IF H.cnt >= x.a[2] \/ H.cb = 0 THEN {[s EXCEPT !.th[t].ph = "left"]} ELSE {}
    [] x.ph = "left" -> {LFin(s, t, "val", <<IF H.cnt >= x.a[2] THEN 1 ELSE 0>>)}
    [] x.ph = "pend" /\ x.op \in {"flush", "valid"} -> {[s EXCEPT !.th[t].ph = "flush", !.th[t].k = s.nq]}
    [] x.ph = "flush" ->
         IF s.nd < x.k THEN {}
         ELSE IF x.op = "flush" THEN {LOk(s, t)}
         ELSE {LFin(s, t, "val", <<IF H.cnt >= H.lo /\ H.cnt <= H.hi THEN 1 ELSE 0>>)}
    [] OTHER -> {}

LGRet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = LGIdle]} ELSE {}
\* the callback of a LogChecker (100) is not seen
LGObs(s, o, a) ==
  CASE o = "cb" -> IF s.th[LOG].ph = "call" /\ s.th[LOG].k = a[1] /\ Entry(s)[2] = a[2]
                   THEN {[s EXCEPT !.th[LOG].ph = "incb"]} ELSE {}
    [] o = "cbe" -> IF s.th[LOG].ph = "incb" /\ s.th[LOG].k = a[1] /\ Entry(s)[2] = a[2]
                    THEN {[s EXCEPT !.th[LOG].ph = "ret"]} ELSE {}
    [] OTHER -> {}
LGSilent(s) == IF s.th[LOG].ph = "call" /\ s.th[LOG].k = 100 THEN {[s EXCEPT !.th[LOG].ph = "ret"]} ELSE {}
LGNext(s, t) == LGStep(s, t) \cup (IF t = LOG THEN LGSilent(s) ELSE {})
LGQuiet(s) == /\ s.th[LOG].ph \in {"idle", "incb"}
              /\ \A t \in DOMAIN s.th : s.th[t].ph # "done" /\ LGNext(s, t) = {}
=============================================================================
