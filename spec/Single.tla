-------------------------------- MODULE Single --------------------------------
(* Singleton ("sg"), SafeInitializableSingleton ("sf") and                     *)
(* InitializableSingleton ("in").  inst[x]: the object of (type, index) number *)
(* x, 0 for none yet.  Objects are numbered in the order of their construction *)
(* (observed: O ctor id value; O dtor id); slots hold shared references.       *)
EXTENDS Integers, Sequences, FiniteSets
SIdx == 0..2
SSlots == 0..3
SIdle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>]
SInits(kind, i) == {[kind |-> kind, inst |-> [x \in SIdx |-> 0], mk |-> [x \in SIdx |-> FALSE], n |-> 0, val |-> <<>>,
                     gone |-> {}, sl |-> [y \in SSlots |-> 0], th |-> [t \in 0..i[1] |-> SIdle]]}
SThreads(s) == DOMAIN s.th
SCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" THEN {[s EXCEPT !.th[t] = [SIdle EXCEPT !.ph = "pend", !.op = op, !.a = a]]} ELSE {}
SFin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v]
B(b) == IF b THEN <<1>> ELSE <<0>>
\* what a call gives once the object (or none) is there
Give(s, t) ==
  LET x == s.th[t]
      k == s.inst[x.a[1]] IN
  IF x.op \in {"get", "getn"} THEN SFin(s, t, "val", <<k>>)
  ELSE SFin([s EXCEPT !.sl[x.a[2]] = k], t, "val", <<k>>)
Default == 7
Creates(s, op) == (s.kind = "sg" /\ op \in {"get", "gets"}) \/ (s.kind = "sf" /\ op \in {"get", "gets"})
\* objects that somebody refers to
Held(s) == {s.inst[x] : x \in SIdx} \cup {s.sl[y] : y \in SSlots} \cup {0}
Loose(s) == {k \in 1..s.n : k \notin Held(s) /\ k \notin s.gone /\ ~\E t \in DOMAIN s.th : s.th[t].ph = "made" /\ s.th[t].v = <<k>>}

SStep(s, t) ==
  LET x == s.th[t]
      i == IF x.a = <<>> THEN 0 ELSE x.a[1] IN
  CASE x.ph = "pend" /\ x.op \in {"get", "gets", "getn", "getsn"} ->
         IF s.mk[i] THEN {}                              \* somebody is making it
         ELSE IF s.inst[i] = 0 /\ Creates(s, x.op)
         THEN {[s EXCEPT !.mk[i] = TRUE, !.th[t].ph = "make"]}
         ELSE {Give(s, t)}
    [] x.ph = "pend" /\ x.op = "init" ->
         IF s.mk[i] THEN {}
         ELSE IF s.kind = "sf" /\ s.inst[i] # 0 THEN {SFin(s, t, "val", <<0>>)}
         ELSE {[s EXCEPT !.mk[i] = TRUE, !.th[t].ph = "make"]}
    [] x.ph = "made" ->
         LET r == [s EXCEPT !.mk[i] = FALSE, !.inst[i] = x.v[1]] IN
         IF x.op = "init" THEN {[SFin(r, t, "val", <<1>>) EXCEPT !.th[t].ph = "swept"]} ELSE {Give(r, t)}
    \* the object that was replaced is gone when the call returns
    [] x.ph = "swept" -> IF Loose(s) = {} THEN {[s EXCEPT !.th[t].ph = "done"]} ELSE {}
    [] x.ph = "pend" /\ x.op = "see" ->
         LET k == s.sl[x.a[1]] IN {IF k = 0 THEN SFin(s, t, "val", <<0>>) ELSE SFin(s, t, "val", <<k, s.val[k]>>)}
    [] x.ph = "pend" /\ x.op = "drop" -> {[s EXCEPT !.sl[i] = 0, !.th[t].ph = "swept", !.th[t].tag = "ok", !.th[t].v = <<>>]}
    [] OTHER -> {}
SRet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = SIdle]} ELSE {}
SObs(s, o, v) ==
  CASE o = "ctor" ->
         {[s EXCEPT !.n = @ + 1, !.val = Append(@, v[2]), !.th[t].ph = "made", !.th[t].v = <<v[1]>>] :
            t \in {u \in DOMAIN s.th : s.th[u].ph = "make" /\ v[1] = s.n + 1
                                       /\ v[2] = (IF s.th[u].op = "init" THEN s.th[u].a[2] ELSE Default)}}
    [] o = "dtor" -> IF v[1] \in Loose(s) THEN {[s EXCEPT !.gone = @ \cup {v[1]}]} ELSE {}
SQuiet(s) == Loose(s) = {} /\ \A t \in DOMAIN s.th : s.th[t].ph = "idle"
=============================================================================
