------------------------------- MODULE Files -------------------------------
(* F01: what is in a file, as lines and whole, and what may be done with it.    *)
EXTENDS Str, TLC

LF == 10   CR == 13

\* the lines of a text; nothing follows the last line feed
Lines(t) == LET ls == Split(t, <<LF>>) IN IF ls[Len(ls)] = <<>> THEN SubSeq(ls, 1, Len(ls) - 1) ELSE ls
NoCR(l) == SelectSeq(l, LAMBDA c : c # CR)
Stripped(ls) == [k \in 1..Len(ls) |-> NoCR(ls[k])]

ToStrings(t, strip, noempty) ==
    LET ls == TLCEval(IF strip THEN Stripped(Lines(t)) ELSE Lines(t))
    IN  IF noempty THEN SelectSeq(ls, LAMBDA l : l # <<>>) ELSE ls
RECURSIVE Whole(_)
Whole(ls) == IF ls = <<>> THEN <<>> ELSE ls[1] \o <<LF>> \o Whole(Tail(ls))
ToString_(t, strip) == Whole(ToStrings(t, strip, FALSE))

Bit(x, b) == (x \div b) % 2 = 1
\* permissions: 4 read, 2 write, 1 execute, of a file of that owner
Accessible(kind, perm, mode) ==
    kind # "none" /\ \A b \in {1, 2, 4} : Bit(mode, b) => Bit(perm, b)

Bool(b) == IF b THEN 1 ELSE 0
FilesOk(row) ==
    LET a == row.a
        Is(w) == row.k = "ok" /\ row.r = w
        Each(n, x) == [k \in 1..n |-> x]
    IN
    CASE row.f = "file_to_strings" -> Is(<<ToStrings(a[1], a[2] = 1, a[3] = 1)>>)
      [] row.f = "file_to_strings_default" -> Is(<<ToStrings(a[1], TRUE, FALSE)>>)
      [] row.f = "file_to_string" -> Is(<<ToString_(a[1], a[2] = 1)>>)
      [] row.f = "file_to_string_default" -> Is(<<ToString_(a[1], TRUE)>>)
      \* the same line many times: lines, characters in them, lines that differ from the first
      [] row.f = "file_many" -> LET l == ToStrings(a[1] \o <<LF>>, a[3] = 1, FALSE)[1] IN Is(<<a[2], a[2] * Len(l), 0>>)
      \* one line of a text many times: lines, characters, characters that are not the ones of the text
      [] row.f = "file_long" -> Is(<<1, a[2] * Len(a[1]), 0>>)
      \* the file is not there, or may not be read
      [] row.f = "file_missing" -> row.k = "PreconditionNotMet"
      \* permissions, asked, kind (0 none, 1 file, 2 directory, 3 link to a file, 4 link to nothing)
      [] row.f = "is_file_accessible" ->
            Is(<<Bool(Accessible(IF a[3] \in {0, 4} THEN "none" ELSE "file", a[1], a[2]))>>)
=============================================================================
