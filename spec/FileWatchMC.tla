----------------------------- MODULE FileWatchMC -----------------------------
(* Thread 0 changes files; the others set, replace, unset and wait.           *)
EXTENDS FileWatch
CONSTANTS N, Calls, Mods
VARIABLES s, left, g
vars == <<s, left, g>>
T == 0..N
Ops(t) == CASE t = 0 -> {<<"mod", <<1>>>>, <<"mod", <<2>>>>, <<"rm", <<1>>>>}
            [] t = 1 -> {<<"set", <<7>>>>, <<"unset", <<>>>>}
            [] OTHER -> {<<"set", <<8>>>>, <<"unset", <<>>>>, <<"wait", <<1>>>>}
Init == /\ s \in {[x EXCEPT !.alive = TRUE] : x \in FInits("", <<N, 0>>)}
        /\ left = [t \in T |-> IF t = 0 THEN Mods ELSE Calls]
        /\ g = [mods |-> 0, got |-> 0, sure |-> 0, at |-> 0]
Call(t) == left[t] > 0 /\ \E o \in Ops(t) : s' \in FCall(s, t, o[1], o[2])
                                             /\ left' = [left EXCEPT ![t] = @ - 1] /\ g' = g
Step(t) == /\ s' \in FStep(s, t) /\ left' = left
           /\ g' = IF t = 0 /\ s.th[0].op = "mod" /\ s.th[0].a[1] = 1 THEN [g EXCEPT !.mods = @ + 1] ELSE g
Ret(t) == s.th[t].ph = "done" /\ s' \in FRet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<left, g>>
Cb == s.th[FW].ph = "call" /\ s' \in FObs(s, "cb", <<s.th[FW].k, 1>>) /\ UNCHANGED <<left, g>>
Cbe == s.th[FW].ph = "incb" /\ s' \in FObs(s, "cbe", <<s.th[FW].k, 1>>) /\ left' = left /\ g' = [g EXCEPT !.got = @ + 1]
Next == Cb \/ Cbe \/ Step(FW) \/ \E t \in T : Call(t) \/ Step(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Cb) /\ WF_vars(Cbe) /\ WF_vars(Step(FW))
        /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t))
CountIsCalls == s.cnt <= g.got /\ g.got <= s.cnt + 1
OnlySet == s.th[FW].ph = "call" => s.cb # 0
AtMostOnePerChange == g.got + Len(s.todo) <= g.mods
OnlyTheFile == s.th[FW].ph = "call" => s.th[FW].a[1] = 1
\* a modification that is kept while the callback stays set is reported
Reported == (s.kept # <<>> /\ IsMod(s.kept[1], s)) ~> (s.kept = <<>> /\ s.todo = <<>>) \/ s.th[FW].ph = "call"
Returns == \A t \in T : s.th[t].ph \in {"pend", "start", "stop", "uw"} ~> s.th[t].ph \notin {"pend", "start", "stop", "uw"}
=============================================================================
