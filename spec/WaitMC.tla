------------------------------- MODULE WaitMC -------------------------------
(* Clients that call anything, any number of threads, checked exhaustively.   *)
EXTENDS Wait, TLC
CONSTANTS N, Calls, Kind, Ops, Values
VARIABLES s, left, g
vars == <<s, left, g>>
T == 1..N

\* cfg files cannot write sequences
IntOps == {<<"wait", <<3, 1, 0>>>>, <<"wait", <<1, 0, 5>>>>, <<"inc", <<>>>>, <<"dec", <<>>>>, <<"set", <<1, 0>>>>,
           <<"dis", <<>>>>, <<"en", <<>>>>, <<"bdis", <<>>>>, <<"sac", <<>>>>, <<"get", <<>>>>}
BoolOps == {<<"wait", <<1, 1, 0>>>>, <<"wait", <<1, 1, 5>>>>, <<"open", <<>>>>, <<"close", <<>>>>,
            <<"dis", <<>>>>, <<"en", <<>>>>, <<"bdis", <<>>>>, <<"sac", <<>>>>}
CntOps == {<<"wdec", <<0>>>>, <<"wdec", <<5>>>>, <<"wthr", <<0>>>>, <<"inc", <<>>>>,
           <<"dis", <<>>>>, <<"en", <<>>>>, <<"bdis", <<>>>>, <<"sac", <<>>>>}

Init == /\ \E v \in Values, e \in {0, 1} : s \in WInits(Kind, <<N, v, e, 1>>)
        /\ left = [t \in T |-> Calls]
        \* ghost: initial value, increments, grants, results seen, threads that waited when a release began
        /\ g = [v0 |-> s.val, inc |-> 0, grant |-> 0, before |-> [t \in T |-> {}]]

Call(t) == /\ left[t] > 0
           /\ \E o \in Ops : s' \in WCall(s, t, o[1], o[2])
           /\ left' = [left EXCEPT ![t] = @ - 1]
           /\ g' = g
Step(t) == /\ s' \in WStep(s, t)
           /\ left' = left
           /\ g' = [g EXCEPT !.inc = IF s.th[t].op = "inc" THEN @ + 1 ELSE @,
                             !.grant = IF s.th[t].op = "wdec" /\ s'.th[t].tag = "met" THEN @ + 1 ELSE @,
                             !.before = [u \in T |->
                                 IF u = t /\ s'.th[t].ph = "bd" /\ s.th[t].ph # "bd" THEN Waiting(s)
                                 ELSE IF s'.th[u].ph # "bd" THEN @[u]
                                 ELSE @[u]]]
Ret(t) == s.th[t].ph = "done" /\ s' \in WRet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<left, g>>

Next == \E t \in T : Call(t) \/ Step(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t))

\* ---- W01
Reasons == \A t \in T : LET x == s.th[t] IN
  (x.ph = "done" /\ IsWait(x)) => x.tag \in {"disabled", "met", "timeout"} /\ (x.tag = "timeout" => Timeout(x) > 0)
\* the step that decides a wait tells the truth about the state
Truth == [][\A t \in T :
  (IsWait(s.th[t]) /\ s.th[t].ph \in {"pend", "wait"} /\ s'.th[t].ph = "done") =>
     CASE s'.th[t].tag = "disabled" -> ~s.en
       [] s'.th[t].tag = "met" -> s.en /\ Cond(s, s.th[t])
       [] s'.th[t].tag = "timeout" -> s.en /\ ~Cond(s, s.th[t]) /\ Timeout(s.th[t]) > 0]_vars
\* ---- W02
Owed(t) == s.th[t].ph = "wait" /\ (~s.en \/ (Cond(s, s.th[t]) /\ ~s.th[t].lz) \/ Timeout(s.th[t]) > 0)
NoLostWakeup == \A t \in T : ~<>[]Owed(t)
\* ---- W03
BlockingReturns == \A t \in T : (s.th[t].ph = "bd") ~> (s.th[t].ph # "bd")
NobodyLeft == [][\A t \in T : (s.th[t].ph = "bd" /\ s'.th[t].ph = "done") =>
                    /\ Waiting(s) = {}
                    /\ s'.en = (s.th[t].op = "sac")]_vars
WaitersDisabled == [][\A t, u \in T :
   (u # t /\ s.th[t].ph = "bd" /\ s.th[u].ph = "wait" /\ s'.th[u].ph = "done") => s'.th[u].tag = "disabled"]_vars
\* ---- W04
Conservation == Kind = "cnt" => s.val = g.v0 + g.inc - g.grant
Floor == Kind = "cnt" => (s.val >= s.thr \/ s.val >= g.v0)
QuietMeansServed == (\A t \in T : ~Must(s, t)) =>
  \A t \in T : s.th[t].ph = "wait" => s.en /\ (Cond(s, s.th[t]) => s.th[t].lz)
=============================================================================
