------------------------------- MODULE FileWatch -------------------------------
(* FileWatcherHandler.  Threads change files of a directory; the file system   *)
(* keeps the changes for the watch, as long as there is one, merging one equal *)
(* to the last it keeps.  The watch thread takes everything that is kept, and  *)
(* the callback thread (FW) raises an event for each modification of the file. *)
(* Files: 1 is the watched one.  path: 0 a file, 1 a directory (whose every    *)
(* file counts), 2 nothing (no watch is possible, no event ever).              *)
EXTENDS Integers, Sequences, FiniteSets

FW == 40
NEST == 50
FIdle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>, k |-> 0]
FInits(kind, i) ==
  {[path |-> i[2], alive |-> FALSE, cb |-> 0, cnt |-> 0, run |-> FALSE, on |-> FALSE, kept |-> <<>>, todo |-> <<>>,
    busy |-> FALSE, th |-> [t \in (0..i[1]) \cup {FW, NEST} |-> FIdle]]}
FThreads(s) == DOMAIN s.th
FCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" THEN {[s EXCEPT !.th[t] = [FIdle EXCEPT !.ph = "pend", !.op = op, !.a = a]]} ELSE {}
FFin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v]
FOk(s, t) == FFin(s, t, "ok", <<>>)
Changes == {"mod", "new", "rm"}
Other == {"touch", "mv"}                        \* changes that are not watched
Counts(s, f) == s.path = 1 \/ f = 1
Keep(s, op, f) ==
  IF s.on /\ op \in Changes /\ (s.kept = <<>> \/ s.kept[Len(s.kept)] # <<op, f>>)
  THEN [s EXCEPT !.kept = Append(@, <<op, f>>)] ELSE s
IsMod(e, s) == e[1] = "mod" /\ Counts(s, e[2])
Waiters(s) == {t \in DOMAIN s.th : s.th[t].ph = "wait"}
FName(f) == IF f \in {11, 12} THEN IF f = 11 THEN 1 ELSE 0 ELSE f

\* the watch thread (2) and the callback thread (1)
FWStep(s) ==
  LET x == s.th[FW] IN
  (IF s.kept # <<>> THEN {[s EXCEPT !.todo = @ \o SelectSeq(s.kept, LAMBDA e : IsMod(e, s)), !.kept = <<>>]} ELSE {})
  \cup
  (CASE x.ph = "idle" /\ s.todo # <<>> ->
          LET r == [s EXCEPT !.todo = Tail(@)] IN
          IF s.cb = 0 THEN {r}
          ELSE {[r EXCEPT !.run = TRUE, !.th[FW].ph = "call", !.th[FW].k = s.cb, !.th[FW].a = <<s.todo[1][2]>>]}
     [] x.ph = "ret" -> {[s EXCEPT !.cnt = @ + 1, !.run = FALSE, !.th[FW] = FIdle]}
     [] OTHER -> {})

FStep(s, t) ==
  IF t = FW THEN FWStep(s) ELSE
  LET x == s.th[t] IN
  CASE x.ph = "pend" /\ x.op \in Changes -> {FOk(Keep(s, x.op, x.a[1]), t)}
    [] x.ph = "pend" /\ x.op \in Other -> {FOk(s, t)}
    [] x.ph = "pend" /\ x.op = "mk" -> {FOk([s EXCEPT !.alive = TRUE], t)}
    [] x.ph = "pend" /\ x.op \in {"mkc", "set"} ->
         IF s.run \/ s.busy THEN {}
         ELSE IF s.cb # 0 THEN {FOk([s EXCEPT !.cb = x.a[1]], t)}
         ELSE {[s EXCEPT !.cb = x.a[1], !.alive = TRUE, !.busy = TRUE, !.th[t].ph = "start"]}
    [] x.ph = "start" -> {FOk([s EXCEPT !.on = (s.path # 2), !.kept = <<>>, !.todo = <<>>, !.busy = FALSE], t)}
    [] x.ph = "pend" /\ x.op \in {"unset", "hdel"} ->
         IF s.run \/ s.busy THEN {}
         ELSE IF s.cb = 0 THEN {FOk([s EXCEPT !.alive = (@ /\ x.op = "unset")], t)}
         ELSE {[s EXCEPT !.cb = 0, !.busy = TRUE, !.th[t].ph = "stop"]}
    [] x.ph = "stop" ->
         {[s EXCEPT !.on = FALSE, !.kept = <<>>, !.todo = <<>>, !.th[t].ph = "uw"]}
    [] x.ph = "uw" ->
         IF Waiters(s) = {} THEN {FOk([s EXCEPT !.alive = (@ /\ x.op = "unset"), !.busy = FALSE], t)} ELSE {}
    [] x.ph = "pend" /\ x.op = "count" -> {FFin(s, t, "val", <<s.cnt>>)}
    [] x.ph = "pend" /\ x.op = "wait" -> {[s EXCEPT !.th[t].ph = IF s.cb = 0 THEN "left" ELSE "wait"]}
    [] x.ph = "wait" -> IF s.cnt >= x.a[1] \/ s.cb = 0 THEN {[s EXCEPT !.th[t].ph = "left"]} ELSE {}
    [] x.ph = "left" -> {FFin(s, t, "val", <<IF s.cnt >= x.a[1] THEN 1 ELSE 0>>)}
    [] OTHER -> {}

FRet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = FIdle]} ELSE {}
Settled(s) == FWStep(s) = {} /\ s.th[FW].ph = "idle"
FObs(s, o, a) ==
  CASE o = "cb" -> IF s.th[FW].ph = "call" /\ s.th[FW].k = a[1] /\ FName(s.th[FW].a[1]) = a[2]
                   THEN {[s EXCEPT !.th[FW].ph = "incb"]} ELSE {}
    [] o = "cbe" -> IF s.th[FW].ph = "incb" /\ s.th[FW].k = a[1] /\ FName(s.th[FW].a[1]) = a[2]
                    THEN {[s EXCEPT !.th[FW].ph = "ret"]} ELSE {}
    [] o = "settled" -> IF Settled(s) THEN {s} ELSE {}
    [] o = "open" -> IF a[1] = 0 THEN {s} ELSE {}
    [] OTHER -> {}
FQuiet(s) == /\ s.th[FW].ph \in {"idle", "incb"}
             /\ \A t \in DOMAIN s.th : s.th[t].ph # "done" /\ FStep(s, t) = {}
=============================================================================
