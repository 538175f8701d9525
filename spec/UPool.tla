-------------------------------- MODULE UPool --------------------------------
(* UnboundedPool: elements are created (O new id hook), lent, returned (O     *)
(* reset id if the child pool has hooks) and deleted (O del id hook).         *)
EXTENDS Integers, Sequences, FiniteSets
PIdle == [ph |-> "idle", op |-> "", a |-> <<>>, tag |-> "", v |-> <<>>]
\* init: threads, kind of pool (1, 2: with hooks)
PInits(kind, i) == {[alive |-> FALSE, hooks |-> i[2] \in {1, 2}, free |-> {}, lent |-> {}, made |-> 0, batch |-> 0, grow |-> 0,
                     c |-> PIdle]}
PThreads(s) == {0}
PCall(s, t, op, a) == IF s.c.ph = "idle" THEN {[s EXCEPT !.c = [PIdle EXCEPT !.ph = "pend", !.op = op, !.a = a]]} ELSE {}
PFin(s, tag, v) == [s EXCEPT !.c.ph = "done", !.c.tag = tag, !.c.v = v]
PStep(s, t) ==
  LET x == s.c IN
  IF x.ph = "pend" THEN
    CASE x.op = "mk" -> IF x.a[2] = 0 THEN {PFin(s, "initialization", <<>>)}
                        ELSE {[s EXCEPT !.c.ph = "grow", !.grow = x.a[1], !.batch = x.a[2], !.alive = TRUE]}
      [] x.op = "loan" -> IF s.free = {} THEN {[s EXCEPT !.c.ph = "grow", !.grow = s.batch]}
                          ELSE {[PFin(s, "val", <<e>>) EXCEPT !.free = @ \ {e}, !.lent = @ \cup {e}] : e \in s.free}
      [] x.op = "ret" -> IF s.lent = {} THEN {PFin(s, "inconsistent", <<>>)}
                         ELSE IF s.hooks THEN {[s EXCEPT !.c.ph = "reset"]}
                         ELSE {[PFin(s, "ok", <<>>) EXCEPT !.free = @ \cup {x.a[1]}, !.lent = @ \ {x.a[1]}]}
      [] x.op = "del" -> IF s.alive THEN {[s EXCEPT !.c.ph = "del", !.alive = FALSE]} ELSE {PFin(s, "ok", <<>>)}
  ELSE IF x.ph = "grow" /\ s.grow = 0 THEN
    IF x.op = "mk" THEN {PFin(s, "ok", <<>>)} ELSE {[s EXCEPT !.c.ph = "pend"]}
  ELSE IF x.ph = "del" /\ s.free = {} THEN {PFin(s, "ok", <<>>)}
  ELSE {}
PRet(s, t, tag, v) == IF s.c.ph = "done" /\ s.c.tag = tag /\ s.c.v = v THEN {[s EXCEPT !.c = PIdle]} ELSE {}
Hook(s) == IF s.hooks THEN 1 ELSE 0
PObs(s, n, v) ==
  CASE n = "new" -> IF s.c.ph = "grow" /\ s.grow > 0 /\ v = <<s.made + 1, Hook(s)>>
                    THEN {[s EXCEPT !.made = @ + 1, !.free = @ \cup {s.made + 1}, !.grow = @ - 1]} ELSE {}
    [] n = "reset" -> IF s.c.ph = "reset" /\ v = s.c.a
                      THEN {[PFin(s, "ok", <<>>) EXCEPT !.free = @ \cup {v[1]}, !.lent = @ \ {v[1]}]} ELSE {}
    [] n = "del" -> IF s.c.ph = "del" /\ v[1] \in s.free /\ v[2] = Hook(s) THEN {[s EXCEPT !.free = @ \ {v[1]}]} ELSE {}
    [] OTHER -> {}
PQuiet(s) == s.c.ph = "idle"
=============================================================================
