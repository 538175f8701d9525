------------------------------ MODULE LogEvMC ------------------------------
(* Thread 0 logs entries of any kind; the others create, set, unset, destroy. *)
EXTENDS LogEv
CONSTANTS N, Calls, Logs
VARIABLES s, left, g
vars == <<s, left, g>>
T == 0..N
Ops(t) == CASE t = 0 -> {<<"log", <<x, 5>>>> : x \in {0, 1}}
            [] t = 1 -> {<<"mks", <<1, 7, 0, 0>>>>, <<"unset", <<1>>>>, <<"set", <<1, 8>>>>, <<"hdel", <<1>>>>}
            [] OTHER -> {<<"chk", <<2, 1, 1, 1>>>>, <<"valid", <<2>>>>, <<"wait", <<1, 1>>>>, <<"unset", <<1>>>>}
\* got[h]: calls of the callback of h; given[h]: entries of each kind it was called with
Init == /\ s \in {[x EXCEPT !.verb = 1] : x \in LGInits("", <<N>>)}
        /\ left = [t \in T |-> IF t = 0 THEN Logs ELSE Calls]
        /\ g = [got |-> [h \in 1..3 |-> 0], bad |-> FALSE]
Made(o) == o[1] \in {"mks", "chk"}
May(o) == IF o[1] = "log" THEN TRUE
          ELSE IF Made(o) THEN \A i \in 1..Len(s.reg) : s.reg[i] # o[2][1]
          ELSE s.h[o[2][1]].alive
Busy(h, t) == \E u \in T \ {t} : s.th[u].ph # "idle" /\ s.th[u].a # <<>> /\ s.th[u].op # "log" /\ s.th[u].a[1] = h
\* nobody uses a handler that is being created or destroyed
Fine(t, o) == /\ (o[1] \in {"hdel", "mks", "chk"} => ~Busy(o[2][1], t))
              /\ o[1] # "log" => ~\E u \in T \ {t} : s.th[u].ph # "idle" /\ s.th[u].op \in {"hdel", "mks", "chk"}
                                                       /\ s.th[u].a[1] = o[2][1]
Call(t) == left[t] > 0 /\ \E o \in Ops(t) : May(o) /\ Fine(t, o) /\ s' \in LGCall(s, t, o[1], o[2])
                                             /\ left' = [left EXCEPT ![t] = @ - 1] /\ g' = g
Step(t) == /\ s' \in LGNext(s, t) /\ left' = left
           /\ g' = IF t = LOG /\ s'.th[LOG].ph = "ret"
                   THEN [g EXCEPT !.got[s.run] = @ + 1] ELSE g
Ret(t) == s.th[t].ph = "done" /\ s' \in LGRet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<left, g>>
Cb == s.th[LOG].ph = "call" /\ s' \in LGObs(s, "cb", <<s.th[LOG].k, 5>>) /\ UNCHANGED <<left, g>>
Cbe == s.th[LOG].ph = "incb" /\ s' \in LGObs(s, "cbe", <<s.th[LOG].k, 5>>) /\ left' = left
       /\ g' = [g EXCEPT !.got[s.run] = @ + 1]
Next == Cb \/ Cbe \/ Step(LOG) \/ \E t \in T : Call(t) \/ Step(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Cb) /\ WF_vars(Cbe) /\ WF_vars(Step(LOG))
        /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t))
CountIsCalls == \A h \in 1..3 : s.h[h].cnt <= g.got[h] /\ g.got[h] <= s.h[h].cnt + 1
Severe == s.th[LOG].ph = "call" => Entry(s)[1] <= s.h[s.run].thr
OnlySet == s.th[LOG].ph = "call" => s.h[s.run].alive /\ s.h[s.run].cb # 0
\* no entry is given twice to a handler, and each one is taken in its turn
Exact == s.nd + Len(s.q) = s.nq /\ \A h \in 1..3 : g.got[h] <= s.nd + 1
UnsetNotRunning == [][\A t \in T : s.th[t].op \in {"unset", "hdel"} /\ s.th[t].ph = "uw" /\ s'.th[t].ph = "done"
                                     => s.run # s.th[t].a[1] \/ s.h[s.th[t].a[1]].cb # 0]_vars
Consumed == <>[](s.q = <<>> /\ s.th[LOG].ph = "idle")
Returns == \A t \in T : s.th[t].ph \in {"pend", "setk", "uw", "flush"} ~> s.th[t].ph \notin {"pend", "setk", "uw", "flush"}
=============================================================================
