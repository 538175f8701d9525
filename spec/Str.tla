-------------------------------- MODULE Str --------------------------------
(* Text (sequences of character codes) and what the text functions of utils   *)
(* are defined to do with it.                                                  *)
EXTENDS Integers, Sequences, FiniteSets, TLC

From(s, p) == SubSeq(s, p, Len(s))

\* d is in s at position p
At(s, d, p) == p >= 1 /\ p + Len(d) - 1 <= Len(s) /\ SubSeq(s, p, p + Len(d) - 1) = d

StartsWith(s, d) == At(s, d, 1)
EndsWith(s, d) == At(s, d, Len(s) - Len(d) + 1)

\* the first and last positions of d in s (0 if there is none)
First(s, d) ==
    LET ps == {p \in 1..(Len(s) + 1) : At(s, d, p)}
    IN  IF ps = {} THEN 0 ELSE CHOOSE p \in ps : \A q \in ps : p <= q
Last(s, d) ==
    LET ps == {p \in 1..(Len(s) + 1) : At(s, d, p)}
    IN  IF ps = {} THEN 0 ELSE CHOOSE p \in ps : \A q \in ps : p >= q

Contains(s, d) == First(s, d) # 0

\* ---- replacement
Splice(s, p, d, b) == SubSeq(s, 1, p - 1) \o b \o From(s, p + Len(d))

ReplaceFirst(s, d, b) == IF Contains(s, d) THEN Splice(s, First(s, d), d, b) ELSE s

\* [s, n]: all the occurrences found from left to right, none of them in what has been replaced
RECURSIVE ReplaceAll(_, _, _)
ReplaceAll(s, d, b) ==
    IF d = <<>> \/ ~Contains(s, d) THEN [s |-> s, n |-> 0]
    ELSE LET p == First(s, d)
             h == ReplaceAll(From(s, p + Len(d)), d, b)
         IN  [s |-> SubSeq(s, 1, p - 1) \o b \o h.s, n |-> h.n + 1]

\* each undesired text in its turn (they come in the order of their set)
RECURSIVE Strip(_, _, _)
Strip(s, b, us) ==
    IF us = <<>> THEN [s |-> s, n |-> 0]
    ELSE LET h == ReplaceAll(s, us[1], b)
             k == Strip(h.s, b, Tail(us))
         IN  [s |-> k.s, n |-> h.n + k.n]

\* ---- division
RECURSIVE Split(_, _)
Split(s, d) ==
    IF d = <<>> \/ ~Contains(s, d) THEN <<s>>
    ELSE <<SubSeq(s, 1, First(s, d) - 1)>> \o Split(From(s, First(s, d) + Len(d)), d)

RECURSIVE SplitEach(_, _)
SplitEach(ss, d) == IF ss = <<>> THEN <<>> ELSE Split(ss[1], d) \o SplitEach(Tail(ss), d)

RECURSIVE SplitSet(_, _)
SplitSet(ss, ds) == IF ds = <<>> THEN ss ELSE SplitSet(SplitEach(ss, ds[1]), Tail(ds))

RECURSIVE Join(_, _)
Join(ss, d) == IF Len(ss) = 0 THEN <<>> ELSE IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o d \o Join(Tail(ss), d)

\* order of texts, of a set of texts as a sequence without repetitions
RECURSIVE Before(_, _)
Before(a, b) ==
    IF b = <<>> THEN FALSE ELSE IF a = <<>> THEN TRUE
    ELSE IF a[1] # b[1] THEN a[1] < b[1] ELSE Before(Tail(a), Tail(b))

RECURSIVE Sorted(_)
Sorted(S) == IF S = {} THEN <<>> ELSE LET m == CHOOSE x \in S : \A y \in S : ~Before(y, x) IN <<m>> \o Sorted(S \ {m})
Elements(ss) == {ss[k] : k \in 1..Len(ss)}

\* ---- letters
Lower(c) == IF c >= 65 /\ c <= 90 THEN c + 32 ELSE c
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
MapStr(F(_), s) == TLCEval([k \in 1..Len(s) |-> F(s[k])])

\* ---- matching: * any text, ? any character, [..] one of those, [!..] none of those
Star == 42   Question == 63   Open == 91   Close == 93   Bang == 33   Dash == 45

RECURSIVE InSet(_, _)
InSet(set, c) ==
    IF set = <<>> THEN FALSE
    ELSE IF Len(set) >= 3 /\ set[2] = Dash THEN (set[1] <= c /\ c <= set[3]) \/ InSet(From(set, 4), c)
    ELSE set[1] = c \/ InSet(Tail(set), c)

RECURSIVE Match(_, _)
Match(p, s) ==
    IF p = <<>> THEN s = <<>>
    ELSE IF p[1] = Star THEN Match(Tail(p), s) \/ (s # <<>> /\ Match(p, Tail(s)))
    ELSE IF s = <<>> THEN FALSE
    ELSE IF p[1] = Question THEN Match(Tail(p), Tail(s))
    ELSE IF p[1] = Open
         THEN LET neg == Len(p) >= 2 /\ p[2] = Bang
                  b == IF neg THEN 3 ELSE 2
                  e == First(From(p, b), <<Close>>) + b - 1       \* (always closed and not empty)
              IN  (InSet(SubSeq(p, b, e - 1), s[1]) # neg) /\ Match(From(p, e + 1), Tail(s))
    ELSE p[1] = s[1] /\ Match(Tail(p), Tail(s))

\* ---- lists as text
Brace(ss, sep) == <<123>> \o Join(ss, sep) \o <<125>>

RECURSIVE Digits(_)
Digits(n) == IF n < 10 THEN <<48 + n>> ELSE Digits(n \div 10) \o <<48 + (n % 10)>>
NumStr(n) == IF n < 0 THEN <<45>> \o Digits(-n) ELSE Digits(n)
NumStrs(ns) == [k \in 1..Len(ns) |-> NumStr(ns[k])]
=============================================================================
