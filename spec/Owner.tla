-------------------------------- MODULE Owner --------------------------------
(* OwnerPtr, LesseePtr, GuardedPtr.  A cell is a piece of data with the lock   *)
(* that its owner, lessees and guards share.  Owners, lessees and guards are   *)
(* numbered slots; a slot holds a cell, or 0 (empty pointer).  The release of   *)
(* a cell waits until it has no guard, shuts it, calls the deleter (observed:  *)
(* O del d kind) and then the cell is dead.                                    *)
EXTENDS Integers, Sequences, FiniteSets

OIdle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>, c |-> 0, src |-> 0]
Slots == 0..4
OInits(kind, i) ==
  {[cell |-> <<>>,                     \* cells ever made: [d, kind, st] with st live, shut or dead
    own |-> [o \in Slots |-> 0], les |-> [l \in Slots |-> 0],
    gd |-> [g \in Slots |-> 0],
    th |-> [t \in 0..i[1] |-> OIdle]]}
OThreads(s) == DOMAIN s.th
OCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" THEN {[s EXCEPT !.th[t] = [OIdle EXCEPT !.ph = "pend", !.op = op, !.a = a]]} ELSE {}
OFin(s, t, tag, v) == [s EXCEPT !.th[t].ph = "done", !.th[t].tag = tag, !.th[t].v = v]
OOk(s, t) == OFin(s, t, "ok", <<>>)
OVal(s, t, b) == OFin(s, t, "val", <<IF b THEN 1 ELSE 0>>)
Live(s, c) == c # 0 /\ s.cell[c].st = "live"
Shut(s, c) == c # 0 /\ s.cell[c].st = "shut"
\* guards of slots and guards of calls in progress
Guards(s, c) == Cardinality({g \in Slots : s.gd[g] = c}) + Cardinality({t \in DOMAIN s.th : s.th[t].ph = "use" /\ s.th[t].c = c})

\* what the owner holds once the old data have been released
Renew(s, t) ==
  LET x == s.th[t]
      o == x.a[1] IN
  CASE x.op \in {"mk", "mkc"} ->
         OOk([s EXCEPT !.cell = Append(@, [d |-> x.a[2], kind |-> IF Len(x.a) > 2 THEN x.a[3] ELSE 0, st |-> "live"]), !.own[o] = Len(s.cell) + 1], t)
    [] x.op \in {"reset", "odel"} -> OOk([s EXCEPT !.own[o] = 0], t)
    [] x.op \in {"mknull", "mkcnull"} -> OFin([s EXCEPT !.own[o] = 0], t, "rejected", <<>>)
    [] x.op = "omove" -> OOk([s EXCEPT !.own[o] = s.own[x.a[2]], !.own[x.a[2]] = 0], t)

Lock(s, t, l, then(_), miss(_)) ==
  LET c == s.les[l] IN
  IF Shut(s, c) THEN {} ELSE IF Live(s, c) THEN {then(c)} ELSE {miss(0)}

OStep(s, t) ==
  LET x == s.th[t]
      A == IF x.a = <<>> THEN 0 ELSE x.a[1] IN
  CASE x.ph = "pend" /\ x.op \in {"mk", "mkc", "reset", "odel", "mknull", "mkcnull", "omove"} ->
         IF x.op = "omove" /\ A = x.a[2] THEN {OOk(s, t)}
         ELSE IF s.own[A] = 0 THEN {Renew(s, t)}
         ELSE IF Guards(s, s.own[A]) = 0 THEN {[s EXCEPT !.cell[s.own[A]].st = "shut", !.th[t].ph = "del"]} ELSE {}
    [] x.ph = "gone" -> {[Renew(s, t) EXCEPT !.cell[s.own[A]].st = "dead"]}
    [] x.ph = "pend" /\ x.op = "omovec" -> {OOk([s EXCEPT !.own[A] = s.own[x.a[2]], !.own[x.a[2]] = 0], t)}
    [] x.ph = "pend" /\ x.op \in {"lease", "leasec"} -> {OOk([s EXCEPT !.les[x.a[2]] = s.own[A]], t)}
    [] x.ph = "pend" /\ x.op = "lcopy" -> {OOk([s EXCEPT !.les[x.a[2]] = s.les[A]], t)}
    [] x.ph = "pend" /\ x.op = "lmove" ->
         {OOk(IF A = x.a[2] THEN s ELSE [s EXCEPT !.les[x.a[2]] = s.les[A], !.les[A] = 0], t)}
    [] x.ph = "pend" /\ x.op = "ldel" -> {OOk([s EXCEPT !.les[A] = 0], t)}
    [] x.ph = "pend" /\ x.op \in {"lock", "relock"} ->
         \* relock assigns over a guard: the new one is taken before the old one is left
         Lock(s, t, A, LAMBDA c : OVal([s EXCEPT !.gd[x.a[2]] = c], t, TRUE),
                       LAMBDA c : OVal([s EXCEPT !.gd[x.a[2]] = 0], t, FALSE))
    [] x.ph = "pend" /\ x.op = "lwe" ->
         Lock(s, t, A, LAMBDA c : OVal([s EXCEPT !.gd[x.a[2]] = c], t, TRUE), LAMBDA c : OFin(s, t, "noaccess", <<>>))
    [] x.ph = "pend" /\ x.op \in {"arrow", "star"} ->
         Lock(s, t, A, LAMBDA c : [s EXCEPT !.th[t].ph = "use", !.th[t].c = c], LAMBDA c : OFin(s, t, "noaccess", <<>>))
    [] x.ph = "used" -> {OFin(s, t, "val", <<s.cell[x.c].d>>)}
    [] x.ph = "pend" /\ x.op = "get" ->
         {IF s.gd[A] = 0 THEN OFin(s, t, "null", <<>>) ELSE OFin(s, t, "val", <<s.cell[s.gd[A]].d>>)}
    [] x.ph = "pend" /\ x.op = "oget" ->
         {IF s.own[A] = 0 THEN OFin(s, t, "null", <<>>) ELSE OFin(s, t, "val", <<s.cell[s.own[A]].d>>)}
    [] x.ph = "pend" /\ x.op = "unlock" -> {OOk([s EXCEPT !.gd[A] = 0], t)}
    [] x.ph = "pend" /\ x.op \in {"gmove", "gmovec"} ->
         {OOk(IF A = x.a[2] THEN s ELSE [s EXCEPT !.gd[x.a[2]] = s.gd[A], !.gd[A] = 0], t)}
    [] x.ph = "pend" /\ x.op = "lbool" -> {OVal(s, t, Live(s, s.les[A]) \/ Shut(s, s.les[A]))}
    [] x.ph = "pend" /\ x.op = "obool" -> {OVal(s, t, s.own[A] # 0)}
    [] OTHER -> {}

ORet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = OIdle]} ELSE {}
OObs(s, o, a) ==
  CASE o = "del" ->
         {[s EXCEPT !.th[t].ph = "gone"] : t \in {u \in DOMAIN s.th :
             s.th[u].ph = "del" /\ s.cell[s.own[s.th[u].a[1]]].d = a[1] /\ s.cell[s.own[s.th[u].a[1]]].kind = a[2]}}
    [] o = "use" -> {[s EXCEPT !.th[t].v = a] : t \in {u \in DOMAIN s.th :
             s.th[u].ph = "use" /\ s.th[u].v = <<>> /\ s.cell[s.th[u].c].d = a[1]}}
    [] o = "used" -> {[s EXCEPT !.th[t].ph = "used"] : t \in {u \in DOMAIN s.th :
             s.th[u].ph = "use" /\ s.th[u].v = a}}
    [] OTHER -> {}
OQuiet(s) == \A t \in DOMAIN s.th : s.th[t].ph \in {"idle", "pend", "use"} /\ OStep(s, t) = {}
=============================================================================
