------------------------------- MODULE SingleMC -------------------------------
EXTENDS Single
CONSTANTS N, Calls, Kind
VARIABLES s, left, trues
vars == <<s, left, trues>>
T == 1..N
X == {0, 1}
Ops(t) == {<<op, <<x, t>>>> : op \in {"get", "gets"}, x \in X} \cup {<<"getn", <<0>>>>, <<"drop", <<t>>>>}
          \cup (IF Kind = "sg" THEN {} ELSE {<<"init", <<x, t>>>> : x \in X})
Init == s \in SInits(Kind, <<N>>) /\ left = [t \in T |-> Calls] /\ trues = [x \in X |-> 0]
Call(t) == left[t] > 0 /\ (\E o \in Ops(t) : s' \in SCall(s, t, o[1], o[2])) /\ left' = [left EXCEPT ![t] = @ - 1] /\ trues' = trues
Step(t) == s' \in SStep(s, t) /\ UNCHANGED <<left, trues>>
Ret(t) == /\ s.th[t].ph = "done" /\ s' \in SRet(s, t, s.th[t].tag, s.th[t].v) /\ left' = left
          /\ trues' = IF s.th[t].op = "init" /\ s.th[t].v = <<1>> THEN [trues EXCEPT ![s.th[t].a[1]] = @ + 1] ELSE trues
Obs == (\E v \in {Default} \cup T : s' \in SObs(s, "ctor", <<s.n + 1, v>>)) \/ (\E k \in 1..s.n : s' \in SObs(s, "dtor", <<k>>))
Next == (Obs /\ UNCHANGED <<left, trues>>) \/ \E t \in T : Call(t) \/ Step(t) \/ Ret(t)
Spec == Init /\ [][Next]_vars /\ WF_vars(Obs /\ UNCHANGED <<left, trues>>) /\ \A t \in T : WF_vars(Step(t)) /\ WF_vars(Ret(t))
\* never replaced, nor destroyed, except by initialize of an InitializableSingleton
Stable == [][\A x \in X : s.inst[x] # 0 /\ Kind # "in" => s'.inst[x] = s.inst[x]]_vars
OneEach == Kind # "in" => s.n <= 2 /\ s.gone = {} /\ \A x \in X : trues[x] <= 1
AliveHeld == Held(s) \cap s.gone = {}
Distinct == \A x, y \in X : x # y /\ s.inst[x] # 0 => s.inst[x] # s.inst[y]
Returns == \A t \in T : s.th[t].ph # "idle" ~> s.th[t].ph = "idle"
=============================================================================
