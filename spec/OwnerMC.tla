------------------------------- MODULE OwnerMC -------------------------------
(* Thread 0 has the owners, the others lessees and guards of their own.       *)
EXTENDS Owner
CONSTANTS N, Calls
VARIABLES s, left, dels
vars == <<s, left, dels>>
T == 0..N
Ops(t) == IF t = 0 THEN {<<"mk", <<1, 7, 0>>>>, <<"reset", <<1>>>>, <<"omove", <<1, 2>>>>, <<"odel", <<2>>>>}
          ELSE {<<"lock", <<t, t>>>>, <<"arrow", <<t>>>>, <<"unlock", <<t>>>>, <<"relock", <<t + 2, t>>>>, <<"lbool", <<t>>>>}
Init == /\ s \in {[x EXCEPT !.cell = <<[d |-> 5, kind |-> 0, st |-> "live"], [d |-> 6, kind |-> 0, st |-> "live"]>>,
                            !.own = [@ EXCEPT ![1] = 1, ![2] = 2],
                            !.les = [l \in Slots |-> IF l \in {1, 2} THEN 1 ELSE IF l \in {3, 4} THEN 2 ELSE 0]]
                   : x \in OInits("", <<N>>)}
        /\ left = [t \in T |-> Calls]
        /\ dels = [c \in 1..8 |-> 0]
Call(t) == left[t] > 0 /\ \E o \in Ops(t) : s' \in OCall(s, t, o[1], o[2]) /\ left' = [left EXCEPT ![t] = @ - 1] /\ dels' = dels
Step(t) == s' \in OStep(s, t) /\ UNCHANGED <<left, dels>>
Ret(t) == s.th[t].ph = "done" /\ s' \in ORet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<left, dels>>
Del == \E t \in T : /\ s.th[t].ph = "del"
                    /\ LET c == s.own[s.th[t].a[1]] IN
                       s' \in OObs(s, "del", <<s.cell[c].d, 0>>) /\ dels' = [dels EXCEPT ![c] = @ + 1]
                    /\ left' = left
Use == \E t \in T : /\ s.th[t].ph = "use"
                    /\ s' \in {r \in OObs(s, "use", <<s.cell[s.th[t].c].d>>) \cup OObs(s, "used", s.th[t].v) :
                                 r.th[t] # s.th[t]}
                    /\ UNCHANGED <<left, dels>>
\* guards are not kept for ever
Drop(t) == t # 0 /\ s.th[t].ph = "idle" /\ left[t] = 0 /\ s.gd[t] # 0 /\ s' = [s EXCEPT !.gd[t] = 0] /\ UNCHANGED <<left, dels>>
Next == Del \/ Use \/ \E t \in T : Call(t) \/ Step(t) \/ Ret(t) \/ Drop(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Del) /\ WF_vars(Use)
        /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t)) /\ WF_vars(Drop(t)) /\ WF_vars(Call(t))
\* guarded data, and data in use, are alive
GuardedLives == /\ \A g \in Slots : s.gd[g] # 0 => s.cell[s.gd[g]].st = "live"
                /\ \A t \in T : s.th[t].ph = "use" => s.cell[s.th[t].c].st = "live"
OnceDeleted == \A c \in 1..Len(s.cell) : dels[c] <= 1 /\ (s.cell[c].st = "dead" => dels[c] = 1) /\ (s.cell[c].st = "live" => dels[c] = 0)
\* live data have exactly one owner
OneOwner == \A c \in 1..Len(s.cell) : s.cell[c].st = "live" => Cardinality({o \in Slots : s.own[o] = c}) = 1
\* a release that waits goes on once there are no guards
Released == \A t \in T : s.th[t].ph \in {"pend", "del", "gone"} ~> s.th[t].ph \notin {"pend", "del", "gone"}
=============================================================================
