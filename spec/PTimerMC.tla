------------------------------ MODULE PTimerMC ------------------------------
(* Against another definition: the instants in which the state changed.       *)
EXTENDS PTimer
CONSTANTS Steps
VARIABLES o, now, log
vars == <<o, now, log>>
Init == \E k \in {0, 1} : o \in TInits("", <<k>>) /\ now = 0 /\ log = <<<<0, k>>>>
Do(op, a) == \E r \in TApply(o, 0, op, a) : o' = r.o
Next == /\ Len(log) < Steps
        /\ \/ Do("sleep", <<1>>) /\ now' = now + 1 /\ now < 4 /\ log' = log
           \/ Do("play", <<>>) /\ now' = now /\ log' = Append(log, <<now, 1>>)
           \/ Do("pause", <<>>) /\ now' = now /\ log' = Append(log, <<now, 0>>)
           \/ Do("reset", <<>>) /\ now' = now /\ log' = <<<<now, IF o.playing THEN 1 ELSE 0>>>>
Spec == Init /\ [][Next]_vars
RECURSIVE Sum(_)
Sum(i) == IF i > Len(log) THEN 0
          ELSE (IF log[i][2] = 1 THEN (IF i = Len(log) THEN now ELSE log[i + 1][1]) - log[i][1] ELSE 0) + Sum(i + 1)
Exact == o.total = Sum(1)
Grows == [][o'.total >= o.total \/ Len(log') = 1]_vars
=============================================================================
