------------------------------- MODULE EventMC -------------------------------
(* One thread that sets and unsets, others that raise events, wait and count; *)
(* Kind "ev": a plain handler, "per": periodic, "multi": relayed handlers.    *)
EXTENDS Event
CONSTANTS Kind, N, Calls, MaxNow, Nested
VARIABLES s, left, g
vars == <<s, left, g>>
T == 0..N
Ctl == {<<"set", <<1>>>>, <<"unset", <<>>>>}
Oth == CASE Kind = "multi" -> {<<"iev", <<5, 1>>>>, <<"iev", <<5, 2>>>>, <<"count", <<>>>>}
         [] Kind = "per" -> {<<"ev", <<0>>>>, <<"wait", <<1>>>>}
         [] OTHER -> {<<"ev", <<5>>>>, <<"wait", <<1>>>>, <<"wait", <<2>>>>, <<"decr", <<>>>>}
Ops(t) == IF t = 0 THEN Ctl ELSE Oth
Pers == CASE Kind = "multi" -> <<0, 0, 0>> [] Kind = "per" -> <<2>> [] OTHER -> <<0>>
Reg(x) == IF Kind = "multi" THEN [x EXCEPT !.cb[1] = RELAY, !.cb[2] = RELAY] ELSE x
Init == /\ s \in {Reg(x) : x \in EInits("", <<N, 1>> \o Pers)}
        /\ left = [t \in T |-> Calls]
        /\ g = [got |-> 0, dec |-> 0, raised |-> 0]   \* callbacks ended, decrements, events relayed while set
Call(t) == left[t] > 0 /\ \E o \in Ops(t) : s' \in ECall(s, t, o[1], o[2]) /\ left' = [left EXCEPT ![t] = @ - 1] /\ g' = g
\* the callback run by t unsets the handler
Nest(t) == /\ Nested /\ s.th[t].ph = "incb" /\ left[t] > 0
           /\ s' \in ECall(s, NEST + t, "unset", <<>>) /\ left' = [left EXCEPT ![t] = @ - 1] /\ g' = g
Threads == DOMAIN s.th
Step(t) == /\ t \in Threads /\ s' \in EStep(s, t) /\ left' = left
           /\ g' = [g EXCEPT !.dec = IF s.th[t].op = "decr" /\ s.cnt[0] > 0 THEN @ + 1 ELSE @]
Ret(t) == t \in Threads /\ s.th[t].ph = "done" /\ s' \in ERet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<left, g>>
CbStart(t) == /\ t \in Threads /\ s.th[t].ph \in {"call", "rcall"}
              /\ s' \in EObs(s, "cb", <<s.th[t].k, IF s.th[t].ph = "call" THEN EvX(s, t) ELSE 0>>)
              /\ UNCHANGED <<left, g>>
CbEnd(t) == /\ t \in Threads /\ s.th[t].ph \in {"incb", "rincb"} /\ (t < NEST => s.th[NEST + t].ph = "idle")
            /\ s' \in EObs(s, "cbe", <<s.th[t].k, IF s.th[t].ph = "incb" THEN EvX(s, t) ELSE 0>>)
            /\ left' = left /\ g' = [g EXCEPT !.got = @ + 1]
Tick == s.now < MaxNow /\ s' \in EObs(s, "now", <<s.now + 1>>) /\ UNCHANGED <<left, g>>
All == T \cup {NEST + t : t \in T} \cup {TIMER}
Next == Tick \/ \E t \in T : Call(t) \/ Nest(t) \/ \E u \in All : Step(u) \/ Ret(u) \/ CbStart(u) \/ CbEnd(u)
Spec == Init /\ [][Next]_vars /\ \A u \in All : WF_vars(Step(u)) /\ WF_vars(Ret(u)) /\ WF_vars(CbStart(u)) /\ WF_vars(CbEnd(u))

In(h) == {t \in Threads : s.th[t].ph \in {"call", "incb", "rcall", "rincb", "rret", "ret"} /\ (EvH(s, t) = h \/ (h = 0 /\ s.th[t].ph \in {"rcall", "rincb", "rret"}))}
\* at most one callback of a handler at a time
Serial == \A h \in Handlers(s) : Cardinality(In(h)) <= 1 /\ Len(s.lock[h]) = Cardinality(In(h))
\* count is exact
CountExact == s.cnt[0] + g.dec = g.got - Cardinality({t \in Threads : \/ s.th[t].ph = "ret" /\ EvH(s, t) = 0
                                                                     \/ s.th[t].ph = "rret"})
Exact == Kind # "multi" => CountExact
\* nothing is called once unset has finished (unless it was called by the callback itself), until it is set again
AfterUnset == s.cb[0] = 0 /\ s.busy = -1 =>
                \A t \in Threads : s.th[t].ph \in {"incb", "call"} /\ EvH(s, t) = 0 => Nested
UnsetBlocks == [][\A t \in T : s.th[t].op = "unset" /\ s.th[t].ph # "done" /\ s'.th[t].ph = "done" =>
                     In(0) = {} \/ s.busy # t]_vars
TimerStops == \A h \in Handlers(s) : s.cb[h] = 0 /\ s.busy = -1 => s.next[h] = -1
Spaced == \A h \in Handlers(s) : s.next[h] >= 0 => s.next[h] <= s.now + s.per[h]
\* liveness
UnsetReturns == \A t \in T : s.th[t].op = "unset" /\ s.th[t].ph \in {"join", "uw"} ~> s.th[t].ph = "idle"
WaitReturns == \A t \in T : ~<>[](s.th[t].ph = "wait" /\ (s.cnt[0] >= s.th[t].a[1] \/ s.cb[0] = 0))
Relayed == \A t \in T : s.th[t].ph = "call" ~> s.th[t].ph # "call"
=============================================================================
