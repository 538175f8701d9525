------------------------------- MODULE Table -------------------------------
(* Answers of the real code, one per row, checked against the definition Ok   *)
(* of what the called function answers.                                       *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Rows,      \* sequence of [f, a, k, r]: function, arguments, "ok" or the exception, results
          Ok(_)

VARIABLE i

Step == 64

Least(a, b) == IF a < b THEN a ELSE b

TInit == i \in 1..Least(Step, Len(Rows))

TNext == i + Step <= Len(Rows) /\ i' = i + Step

TInv == IF Ok(Rows[i]) THEN TRUE ELSE PrintT(<<"BAD", i>>)
=============================================================================
