------------------------------ MODULE SignalMC ------------------------------
(* One thread sends signals, the others set, unset, register, unregister.     *)
EXTENDS Signal
CONSTANTS N, Calls, Sigs
VARIABLES s, left, g
vars == <<s, left, g>>
T == 0..N
Ops(t) == CASE t = 0 -> {<<"sig", <<>>>>}
            [] t = 1 -> {<<"set", <<1, 7>>>>, <<"unset", <<1>>>>, <<"set", <<2, 8>>>>}
            [] OTHER -> {<<"areg", <<11, 9>>>>, <<"aunreg", <<11>>>>, <<"unset", <<2>>>>, <<"wait", <<1, 1>>>>}
Init == /\ s \in SInits("", <<N>>)
        /\ left = [t \in T |-> IF t = 0 THEN Sigs ELSE Calls]
        /\ g = [sent |-> 0, due |-> 0, got |-> 0]
May(o) == IF o[1] = "areg" THEN o[2][1] \notin s.reg ELSE TRUE
Call(t) == left[t] > 0 /\ \E o \in Ops(t) : May(o) /\ s' \in SCall(s, t, o[1], o[2]) /\ left' = [left EXCEPT ![t] = @ - 1] /\ g' = g
Step(t) == /\ s' \in SStep(s, t) /\ left' = left
           /\ g' = [g EXCEPT !.sent = IF t = 0 THEN @ + 1 ELSE @,
                             !.due = IF t = 99 /\ s.tk THEN @ + Cardinality({e \in s.reg : s.cb[e] # 0}) ELSE @]
Ret(t) == s.th[t].ph = "done" /\ s' \in SRet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<left, g>>
Cb == s.cur # 0 /\ s' \in SObs(s, "cb", <<s.ck, Arg(s.cur)>>) /\ UNCHANGED <<left, g>>
Cbe == s.cur # 0 /\ s' \in SObs(s, "cbe", <<s.ck, 0>>) /\ left' = left /\ g' = [g EXCEPT !.got = @ + 1]
Next == Cb \/ Cbe \/ Step(99) \/ \E t \in T : Call(t) \/ Step(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Cb) /\ WF_vars(Cbe) /\ WF_vars(Step(99))
        /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t))
\* every signal is received or still counted, and handlers get at most one event per signal
NoneLost == s.pend <= g.sent
AtMost == g.got <= g.due
CountIsCalls == \A e \in Entries : s.cnt[e] <= g.sent
NeverUnset == s.cph = "call" => s.cb[s.cur] # 0
UnsetNotRunning == [][\A t \in T : s.th[t].op = "unset" /\ s.th[t].ph = "uw" /\ s'.th[t].ph = "done" => ~Running(s, s.th[t].a[1])]_vars
Served == <>[](s.pend = 0 /\ ~s.on /\ ~s.tk)
UnsetReturns == \A t \in T : s.th[t].ph \in {"unreg", "uw", "reg"} ~> s.th[t].ph \notin {"unreg", "uw", "reg"}
=============================================================================
