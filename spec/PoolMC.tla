------------------------------- MODULE PoolMC -------------------------------
(* One controller (enable, disable), one or more emitters, n workers.         *)
EXTENDS Pool
CONSTANTS NW, Emitters, Emits, Ctl
VARIABLES s, left, g
vars == <<s, left, g>>
T == 0..Emitters
Ops(t) == IF t = 0 THEN {<<"enable", <<>>>>, <<"disable", <<>>>>, <<"wall", <<0>>>>}
          ELSE {<<"emit", <<1>>>>, <<"emit", <<2>>>>, <<"emit", <<3>>>>, <<"wall", <<5>>>>}
Init == /\ s \in {[x EXCEPT !.slots = {1, 2}] : x \in PInits("", <<Emitters, NW>>)}
        /\ left = [t \in T |-> IF t = 0 THEN Ctl ELSE Emits]
        /\ g = [emitted |-> 0, done |-> 0]
Call(t) == left[t] > 0 /\ \E o \in Ops(t) : s' \in PCall(s, t, o[1], o[2]) /\ left' = [left EXCEPT ![t] = @ - 1] /\ g' = g
Step(t) == /\ s' \in PStep(s, t) /\ left' = left
           /\ g' = IF t # Workers /\ s.th[t].op = "emit" /\ s'.th[t].tag = "ok" THEN [g EXCEPT !.emitted = @ + 1] ELSE g
Ret(t) == s.th[t].ph = "done" /\ s' \in PRet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<left, g>>
Start == \E k \in {1, 2} : s' \in PObs(s, "start", <<k>>) /\ UNCHANGED <<left, g>>
End == \E k \in {1, 2} : s' \in PObs(s, "end", <<k>>) /\ left' = left /\ g' = [g EXCEPT !.done = @ + 1]
Next == Step(Workers) \/ Start \/ End \/ \E t \in T : Call(t) \/ Step(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Start) /\ WF_vars(End) /\ WF_vars(Step(Workers))
        /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t))
ExactlyOnce == g.emitted = g.done + Busy(s) + Len(s.q)
Bounded == Busy(s) <= s.n
DisabledMeansQuiet == [][\A t \in T : (s.th[t].ph = "join" /\ s'.th[t].ph = "done") => Busy(s) = 0]_vars
NothingStartsDisabled == [][(Len(s'.taken) > Len(s.taken)) => s.en]_vars
AllRun == (<>[]s.en) => <>[](s.q = <<>> /\ Busy(s) = 0)
DisableReturns == \A t \in T : (s.th[t].ph = "join") ~> (s.th[t].ph # "join")
WaitAllReturns == \A t \in T : ~<>[](s.th[t].ph = "wait" /\ s.q = <<>>)
=============================================================================
