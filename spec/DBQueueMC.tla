------------------------------ MODULE DBQueueMC ------------------------------
(* Any number of producers and one consumer that swaps when the foreground is *)
(* empty: nothing is lost, duplicated or reordered.                           *)
EXTENDS DBQueue
CONSTANTS P, M            \* producers, pushes of each of them
VARIABLES q, sent, got, order
vars == <<q, sent, got, order>>
Init == q = [fg |-> <<>>, bg |-> <<>>] /\ sent = [p \in 1..P |-> 0] /\ got = <<>> /\ order = <<>>
Do(op, a) == LET r == CHOOSE r \in QApply(q, 0, op, a) : TRUE IN q' = r.o
Push(p) == /\ sent[p] < M /\ Do("push", <<p * 10 + sent[p]>>)
           /\ sent' = [sent EXCEPT ![p] = @ + 1] /\ order' = Append(order, p * 10 + sent[p]) /\ got' = got
Take == IF q.fg = <<>> THEN q.bg # <<>> /\ Do("swap", <<>>) /\ UNCHANGED <<sent, got, order>>
        ELSE /\ got' = Append(got, Head(q.fg)) /\ Do("fap", <<>>) /\ UNCHANGED <<sent, order>>
Next == Take \/ \E p \in 1..P : Push(p)
Spec == Init /\ [][Next]_vars /\ WF_vars(Take) /\ \A p \in 1..P : WF_vars(Push(p))
NothingLost == got \o q.fg \o q.bg = order
AllDelivered == <>(Len(got) = P * M)
=============================================================================
