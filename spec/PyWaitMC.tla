------------------------------ MODULE PyWaitMC ------------------------------
(* Clients of the wait handlers of py_utils, checked exhaustively.            *)
EXTENDS PyWait, TLC
CONSTANTS N, Calls, Kind, Ops, Values
VARIABLES s, left
vars == <<s, left>>
T == 1..N
IntOps == {<<"wait", <<3, 1, 0>>>>, <<"wait", <<1, 0, 5>>>>, <<"wait", <<6, 2, 0>>>>, <<"inc", <<>>>>, <<"dec", <<2>>>>, <<"set", <<1>>>>,
           <<"dis", <<>>>>, <<"en", <<>>>>, <<"bdis", <<>>>>, <<"isen", <<>>>>}
BoolOps == {<<"wait", <<1, 1, 0>>>>, <<"wait", <<1, 1, 5>>>>, <<"open", <<>>>>, <<"close", <<>>>>,
            <<"dis", <<>>>>, <<"en", <<>>>>, <<"bdis", <<>>>>}
Init == (\E v \in Values, e \in {0, 1} : s \in WInits(Kind, <<N, v, e>>)) /\ left = [t \in T |-> Calls]
Call(t) == left[t] > 0 /\ (\E o \in Ops : s' \in WCall(s, t, o[1], o[2])) /\ left' = [left EXCEPT ![t] = @ - 1]
Step(t) == s' \in YStep(s, t) /\ left' = left
Ret(t) == s.th[t].ph = "done" /\ s' \in WRet(s, t, s.th[t].tag, s.th[t].v) /\ left' = left
Next == \E t \in T : Call(t) \/ Step(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t))

Reasons == \A t \in T : LET x == s.th[t] IN
  (x.ph = "done" /\ IsWait(x)) => x.tag \in {"disabled", "met", "timeout"} /\ (x.tag = "timeout" => Timeout(x) > 0)
Truth == [][\A t \in T :
  (IsWait(s.th[t]) /\ s.th[t].ph \in {"pend", "wait"} /\ s'.th[t].ph = "done") =>
     CASE s'.th[t].tag = "disabled" -> ~s.en
       [] s'.th[t].tag = "met" -> s.en /\ Cond(s, s.th[t])
       [] s'.th[t].tag = "timeout" -> s.en /\ ~Cond(s, s.th[t]) /\ Timeout(s.th[t]) > 0]_vars
\* nobody whose condition holds, or whose handler is disabled, waits for ever
Owed(t) == s.th[t].ph = "wait" /\ (~s.en \/ Cond(s, s.th[t]) \/ Timeout(s.th[t]) > 0)
NoLostWakeup == \A t \in T : ~<>[]Owed(t)
\* blocking_disable returns, unless the handler is enabled again and somebody waits for ever
BlockingReturns == \A t \in T : (s.th[t].ph = "bd") ~> (s.th[t].ph # "bd" \/ (s.en /\ Waiting(s) # {}))
NobodyLeft == [][\A t \in T : (s.th[t].ph = "bd" /\ s'.th[t].ph = "done") => Waiting(s) = {}]_vars
\* closing never lets anybody go
CloseKeeps == [][\A t, u \in T : (s.th[t].op = "close" /\ s.th[t].ph = "pend" /\ s'.th[t].ph = "done" /\ Kind = "bool" /\ u # t) =>
                   s'.th[u] = s.th[u] /\ (s'.th[u].ph = "wait" => ~Cond(s', s'.th[u]))]_vars
QuietMeansServed == YQuiet(s) => \A t \in T : s.th[t].ph = "wait" => s.en /\ ~Cond(s, s.th[t])
=============================================================================
