-------------------------------- MODULE Lin --------------------------------
(* Frame for objects whose calls take effect at one instant between call and  *)
(* return (linearizable objects), possibly blocking until they can.           *)
EXTENDS Integers, Sequences
CONSTANTS ObjInits(_, _),      \* set of initial objects for a kind and init parameters (after the thread count)
          Apply(_, _, _, _),   \* Apply(o, t, op, a): set of [o, tag, v] that op may do now; empty: it blocks
          Seen(_, _, _),       \* Seen(o, name, values): set of objects after an observation
          ObjQuiet(_)          \* nothing is owed by the object itself

LIdle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>]
LInits(kind, i) ==
  {[o |-> ob, th |-> [t \in 0..i[1] |-> LIdle]] : ob \in ObjInits(kind, SubSeq(i, 2, Len(i)))}
LThreads(s) == DOMAIN s.th
LCall(s, t, op, a) ==
  IF s.th[t].ph = "idle" THEN {[s EXCEPT !.th[t] = [LIdle EXCEPT !.ph = "pend", !.op = op, !.a = a]]} ELSE {}
LStep(s, t) ==
  IF s.th[t].ph = "pend"
  THEN {[s EXCEPT !.o = r.o, !.th[t].ph = "done", !.th[t].tag = r.tag, !.th[t].v = r.v] :
           r \in Apply(s.o, t, s.th[t].op, s.th[t].a)}
  ELSE {}
LRet(s, t, tag, v) ==
  IF s.th[t].ph = "done" /\ s.th[t].tag = tag /\ s.th[t].v = v THEN {[s EXCEPT !.th[t] = LIdle]} ELSE {}
LObs(s, n, v) == {[s EXCEPT !.o = ob] : ob \in Seen(s.o, n, v)}
LQuiet(s) == ObjQuiet(s.o) /\ \A t \in DOMAIN s.th : s.th[t].ph # "done" /\ LStep(s, t) = {}
=============================================================================
