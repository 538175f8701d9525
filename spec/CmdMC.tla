------------------------------- MODULE CmdMC -------------------------------
(* Readers of the lines that are typed meanwhile; and the laws of arguments.  *)
EXTENDS Cmd
CONSTANTS Readers, Reads, Lines, N
VARIABLES s, typed, left, got, seen
vars == <<s, typed, left, got, seen>>
\* the i-th line holds i letters
Line(i) == [k \in 1..i |-> 97]
Pending(t) == s.th[t].ph \notin {"idle", "done"}
Init == /\ s \in CInits("cmd", <<Readers, 2>>) /\ typed = 0 /\ left = [t \in 1..Readers |-> Reads] /\ got = <<>> /\ seen = <<>>
Next ==
  \/ \E t \in 1..Readers : left[t] > 0 /\ s' \in CCall(s, t, "read", <<>>) /\ left' = [left EXCEPT ![t] = @ - 1] /\ UNCHANGED <<typed, got, seen>>
  \/ typed < Lines /\ s' \in CCall(s, 0, "key", Line(typed + 1) \o <<10>>) /\ typed' = typed + 1 /\ UNCHANGED <<left, got, seen>>
  \/ \E t \in {0, Listener} \cup 1..Readers : \E x \in CStep(s, t) :
       /\ s' = x
       /\ got' = IF t \in 1..Readers /\ x.th[t].ph = "done" THEN Append(got, x.th[t].v) ELSE got
       /\ seen' = IF Len(x.q) > Len(s.q) THEN Append(seen, x.q[Len(x.q)]) ELSE seen
       /\ UNCHANGED <<typed, left>>
  \/ s' \in CObs(s, "raw", <<>>) /\ UNCHANGED <<typed, left, got, seen>>
  \/ \E t \in 0..Readers : s' \in CRet(s, t, s.th[t].tag, s.th[t].v) /\ UNCHANGED <<typed, left, got, seen>>
Spec == Init /\ [][Next]_vars

\* the lines are read in the order they were typed, and delivered once each in that order
InOrder == /\ \A i \in 1..Len(seen) : seen[i] = Line(i)
           /\ \A i \in 1..Len(got) : got[i] = Answer(2, Line(i))
           /\ Len(got) + Len(s.q) = Len(seen) /\ Len(seen) <= typed
\* no line is taken from the terminal that nobody asked for
Called == Readers * Reads - LET Sum[t \in 0..Readers] == IF t = 0 THEN 0 ELSE left[t] + Sum[t - 1] IN Sum[Readers]
OnDemand == Len(seen) <= Called
\* nobody waits for a line that has been typed
NobodyLeft == (CQuiet(s) /\ s.l # "new") => Len(got) = IF Called < typed THEN Called ELSE typed

\* ---- laws of the arguments
Alphabet == {97, 32, 34, 98}
Texts(k) == UNION {[1..m -> Alphabet] : m \in 0..k}
Words == {w \in Texts(2) : \A i \in 1..Len(w) : w[i] # 34}
Blanks(w) == \E i \in 1..Len(w) : w[i] = 32
Quoted(w) == IF Blanks(w) \/ w = <<>> THEN <<34>> \o w \o <<34>> ELSE w
ASSUME \A n \in 1..N : \A ws \in [1..n -> Words] :
         LET line == Join([i \in 1..n |-> Quoted(ws[i])], Blank) IN Arguments(line) = ws
\* without quotes they are the pieces, there is always one, and an unclosed quote takes the rest
ASSUME \A l \in Texts(5) : /\ Len(Arguments(l)) >= 1
                           /\ ((\A i \in 1..Len(l) : l[i] # 34) => Arguments(l) = Split(l, Blank))
                           /\ ((Len(l) > 0 /\ l[1] = 34 /\ \A i \in 2..Len(l) : l[i] # 34) => Arguments(l) = <<Tail(l)>>)
=============================================================================
