------------------------------- MODULE QueueMC -------------------------------
EXTENDS Queue, TLC
CONSTANTS N, Calls, Status
VARIABLES s, left, g
vars == <<s, left, g>>
T == 1..N
Ops(t) == {<<"prod", <<10 * t + left[t]>>>>, <<"cons", <<0>>>>, <<"cons", <<5>>>>, <<"wall", <<0>>>>, <<"ready", <<>>>>}
          \cup {<<x, <<>>>> : x \in Status}
Init == /\ \E e \in {0, 1} : s \in QInits("", <<N, e>>)
        /\ left = [t \in T |-> Calls]
        /\ g = [pushed |-> <<>>, taken |-> <<>>]
Call(t) == left[t] > 0 /\ \E o \in Ops(t) : s' \in QCall(s, t, o[1], o[2]) /\ left' = [left EXCEPT ![t] = @ - 1] /\ g' = g
Step(t) == /\ s' \in QStep(s, t) /\ left' = left
           /\ g' = [pushed |-> IF s'.th[t].ph = "pushed" THEN Append(g.pushed, s.th[t].a[1]) ELSE g.pushed,
                    taken |-> IF s.th[t].ph = "got" THEN Append(g.taken, s'.th[t].v[1]) ELSE g.taken]
Ret(t) == s.th[t].ph = "done" /\ s' \in QRet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<left, g>>
Next == \E t \in T : Call(t) \/ Step(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t))

In(ph) == Cardinality({t \in T : s.th[t].ph = ph})
\* every value once, in order
Fifo == g.taken \o s.q = g.pushed
\* units and values match: whoever holds a unit finds a value
Accounting == Len(s.q) = s.cnt + In("got") + In("pushed")
NothingInProgress == (\A t \in T : s.th[t].ph \in {"idle", "wait"}) => s.cnt = Len(s.q)
BlockedOnlyIfEmpty == QQuiet(s) => \A t \in T : (s.th[t].ph = "wait" /\ s.th[t].op = "cons") => s.cnt = 0 /\ s.q = <<>>
WallTruth == [][\A t \in T : (s.th[t].op = "wall" /\ s'.th[t].tag = "met" /\ s.th[t].ph = "wait") => s.cnt = 0]_vars
ConsumeReturns == \A t \in T : ~<>[](s.th[t].ph = "wait" /\ (~s.en \/ (s.th[t].op = "cons" /\ s.cnt > 0)))
BlockingReturns == \A t \in T : (s.th[t].ph = "bd") ~> (s.th[t].ph # "bd")
=============================================================================
