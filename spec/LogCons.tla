------------------------------- MODULE LogCons -------------------------------
(* BaseLogConfiguration and StdLogConsumer.  Kinds: 1 Error, 2 Warning, 3 Info *)
(* Words and patterns are those of the tables below (as in the harness): a     *)
(* pattern is a set of alternatives, a sequence of sets of characters (star:   *)
(* any number of times), anchored at the beginning and/or the end.             *)
EXTENDS Integers, Sequences, TLC
A == 1
B == 2
C == 3
\* end of line, upper case
N == 4
UA == 5
UB == 6
Anyone == {A, B, C, UA, UB}
Words == << <<>>, <<A>>, <<B>>, <<A, B>>, <<B, A>>, <<A, B, C>>, <<C, A, B>>, <<A, A, B>>, <<C, N, A, B>>,
            <<A, N, B>>, <<UA, UB>>, <<N, UA, A>>, <<UB, N, N, C, A, A, B>> >>
P(s, b, e) == [s |-> s, b |-> b, e |-> e]
One(S) == [S |-> S, star |-> FALSE]
Lit(s) == [i \in 1..Len(s) |-> One({s[i]})]
Patterns == << {P(<<>>, FALSE, FALSE)}, {P(Lit(<<A>>), FALSE, FALSE)}, {P(Lit(<<A, B>>), FALSE, FALSE)},
               {P(Lit(<<A>>), TRUE, FALSE)}, {P(Lit(<<B>>), FALSE, TRUE)}, {P(Lit(<<A, B>>), TRUE, TRUE)},
               {P(Lit(<<A>>), FALSE, FALSE), P(Lit(<<C>>), FALSE, FALSE)},
               {P(Lit(<<B>>), TRUE, FALSE), P(Lit(<<C>>), FALSE, FALSE)},
               {P(<<One({A}), One(Anyone)>>, FALSE, FALSE)}, {P(<<>>, TRUE, TRUE)},
               {P(<<One({B, C}), One({A})>>, FALSE, FALSE)},
               {P(Lit(<<C, A, B>>), TRUE, FALSE), P(Lit(<<B>>), TRUE, TRUE)},
               {P(<<One({C}), [S |-> {A}, star |-> TRUE], One({B})>>, FALSE, FALSE)} >>
\* the texts, to print them
WordText == <<"", "a", "b", "ab", "ba", "abc", "cab", "aab", "c\nab", "a\nb", "AB", "\nAa", "B\n\ncaab">>
PatternText == <<"", "a", "ab", "^a", "b$", "^ab$", "a|c", "^b|c", "a.", "^$", "[bc]a", "^cab|^b$", "ca*b">>

RECURSIVE Prefix(_, _)
\* positions after which a prefix of w matches s
Prefix(s, w) ==
  IF s = <<>> THEN {0}
  ELSE IF Head(s).star THEN
    Prefix(Tail(s), w) \cup (IF w # <<>> /\ Head(w) \in Head(s).S THEN {1 + k : k \in Prefix(s, Tail(w))} ELSE {})
  ELSE IF w # <<>> /\ Head(w) \in Head(s).S THEN {1 + k : k \in Prefix(Tail(s), Tail(w))} ELSE {}
Found(p, w) == \E q \in p : \E i \in 0..Len(w) : \E k \in Prefix(q.s, SubSeq(w, i + 1, Len(w))) :
                 (q.b => i = 0) /\ (q.e => i + k = Len(w))

Default == 0
\* configuration in force, and the one a consumer was made with
CInits(kind, i) == {[verb |-> 2, vl |-> Default, pat |-> <<1, 1, 1>>, pl |-> <<Default, Default, Default>>, con |-> <<>>]}
R(o, tag, v) == {[o |-> o, tag |-> tag, v |-> v]}
\* set by levels: kind by kind
SetF(o, a) == [o EXCEPT !.pat = [k \in 1..3 |-> IF o.pl[k] <= a[2 * k] THEN a[2 * k - 1] + 1 ELSE o.pat[k]],
                        !.pl = [k \in 1..3 |-> IF o.pl[k] <= a[2 * k] THEN a[2 * k] ELSE o.pl[k]]]
LevelName(l) == CASE l = -20 -> "UNSET" [] l = 0 -> "DEFAULT" [] l = 20 -> "FUZZY" [] l = 40 -> "SET" [] l = 60 -> "HARD"
                  [] OTHER -> ""
KindName == <<"Error", "Warning", "Info">>
Accepted(c, k, cat, msg) == k <= c.verb /\ (Found(Patterns[c.pat[k]], Words[cat]) \/ Found(Patterns[c.pat[k]], Words[msg]))
CApply(o, t, op, a) ==
  CASE op = "setv" -> R(IF o.vl <= a[2] THEN [o EXCEPT !.verb = a[1] + 1, !.vl = a[2]] ELSE o, "ok", <<>>)
    [] op = "setf" -> R(SetF(o, a), "ok", <<>>)
    [] op = "dump" -> R(o, "val", <<o.verb - 1, o.vl, o.pat[1] - 1, o.pl[1], o.pat[2] - 1, o.pl[2], o.pat[3] - 1, o.pl[3], 3, 1>>)
    [] op = "con" -> R([o EXCEPT !.con = <<[verb |-> o.verb, pat |-> o.pat]>>], "ok", <<>>)
    [] op = "log" -> LET k == a[1] + 1
                         n == IF Accepted(o.con[1], k, a[2] + 1, a[3] + 1) THEN 1 ELSE 0
                     IN R(o, "val", IF k = 3 THEN <<n, 0>> ELSE <<0, n>>)
    [] op = "strv" -> R(o, "Fuzzy{Level(" \o LevelName(o.vl) \o ") " \o KindName[o.verb] \o "}", <<>>)
    [] op = "str" -> R(o, "Log Filter: {Kind: Error/ Regex: " \o PatternText[o.pat[1]] \o "}| {Kind: Warning/ Regex: "
                          \o PatternText[o.pat[2]] \o "}| {Kind: Info/ Regex: " \o PatternText[o.pat[3]] \o "}", <<>>)
CSeen(o, n, v) == {}
CQuiet(o) == TRUE
=============================================================================
