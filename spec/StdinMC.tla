------------------------------- MODULE StdinMC -------------------------------
(* The editor on every sequence of keys up to a depth, after two lines of     *)
(* history.                                                                   *)
EXTENDS Stdin
CONSTANT Depth
VARIABLES e, h, d, entered
vars == <<e, h, d, entered>>
Seqs == {<<97>>, <<98>>, <<127>>, <<27, 91, 65>>, <<27, 91, 66>>, <<27, 91, 67>>, <<27, 91, 68>>, <<27, 91, 72>>,
         <<27, 91, 70>>, <<27, 91, 51, 126>>, <<27, 91, 53, 126>>, <<27, 91, 54, 126>>, <<27, 91, 50, 126>>,
         <<27, 91, 90>>}
RECURSIVE Keys(_, _)
Keys(p, ks) == IF ks = <<>> THEN p ELSE Keys(Key(p[1], p[2], Head(ks)), Tail(ks))
H0 == HAdd(HAdd([lines |-> <<>>, pos |-> 0], <<120>>), <<121, 122>>)
Init == e = NewLine /\ h = H0 /\ d = 0 /\ entered = H0.lines
Next == \/ d < Depth /\ \E k \in Seqs : LET r == Keys(<<e, h>>, k) IN e' = r[1] /\ h' = r[2] /\ d' = d + 1 /\ entered' = entered
        \/ d < Depth /\ e' = NewLine /\ h' = HAdd(h, e.line) /\ d' = d + 1
           /\ entered' = IF e.line = <<>> THEN entered ELSE Append(entered, e.line)
Spec == Init /\ [][Next]_vars
Consistent == e.cur \in 0..Len(e.line) /\ h.pos \in 0..Len(h.lines) /\ e.esc = ""
\* inserting and erasing, moving there and back
Undo == LET p == <<e, h>> IN
        /\ Keys(p, <<97, 127>>) = p
        /\ Keys(p, <<97, 27, 91, 68, 27, 91, 51, 126>>) = p
        /\ e.cur > 0 => Keys(p, <<27, 91, 68, 27, 91, 67>>) = p
        /\ Keys(p, <<27, 91, 72, 27, 91, 70>>)[1].line = e.line
        /\ Keys(p, <<27, 91, 90>>) = p /\ Keys(p, <<27, 91, 50, 126>>) = p
        /\ Keys(p, <<27, 91, 65>>) = Keys(p, <<27, 91, 53, 126>>)
HistoryIsLines == h.lines = entered
=============================================================================
