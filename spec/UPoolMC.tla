------------------------------- MODULE UPoolMC -------------------------------
EXTENDS UPool
CONSTANTS Initials, Batches, Loans
VARIABLES s, n
vars == <<s, n>>
Init == s \in UNION {PInits("", <<0, k>>) : k \in {0, 1}} /\ n = 0
Call == /\ n < Loans /\ n' = n + 1
        /\ \/ n = 0 /\ \E i \in Initials, b \in Batches : s' \in PCall(s, 0, "mk", <<i, b, 0>>)
           \/ s.alive /\ s' \in PCall(s, 0, "loan", <<>>)
           \/ s.alive /\ \E e \in s.lent \cup (IF s.lent = {} /\ s.made > 0 THEN {1} ELSE {}) : s' \in PCall(s, 0, "ret", <<e>>)
           \/ n > 0 /\ s' \in PCall(s, 0, "del", <<>>)
Obs == UNCHANGED n /\ \/ s' \in PObs(s, "new", <<s.made + 1, Hook(s)>>)
                      \/ s.c.ph = "reset" /\ s' \in PObs(s, "reset", s.c.a)
                      \/ \E e \in s.free : s' \in PObs(s, "del", <<e, Hook(s)>>)
Step == UNCHANGED n /\ s' \in PStep(s, 0)
Ret == UNCHANGED n /\ s' \in PRet(s, 0, s.c.tag, s.c.v)
Next == Call \/ Obs \/ Step \/ Ret
Spec == Init /\ [][Next]_vars /\ WF_vars(Obs \/ Step \/ Ret)
\* an element is free or lent, never both, and none is lost while the pool is alive
Apart == s.free \cap s.lent = {}
Kept == s.alive => s.free \cup s.lent = 1..s.made
OnlyFree == [][s.c.op = "loan" /\ s'.c.ph = "done" /\ s.c.ph = "pend" => s'.c.v[1] \in s.free /\ s'.c.v[1] \notin s.lent]_vars
\* it grows by whole batches, only when it runs out
Grows == [][s'.grow > s.grow /\ s.c.op = "loan" => s.free = {} /\ s'.grow = s.batch]_vars
Served == (s.c.ph # "idle") ~> (s.c.ph = "idle")
=============================================================================
