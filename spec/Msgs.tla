-------------------------------- MODULE Msgs --------------------------------
(* X01: messages, exceptions and casts.                                        *)
EXTENDS Str, TLC

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Concat(Tail(ss))

\* classes of exceptions: 0 std::exception, 1 Exception, the others derive from Exception directly
Classes == 1..11
Catches(thrown, c) == c = 0 \/ c = thrown \/ c = 1
CatchRow(k) == [c \in 1..12 |-> IF Catches(k, c - 1) THEN 1 ELSE 0]

\* the text up to the first NUL (what() is a C string)
CStr(s) == IF Contains(s, <<0>>) THEN SubSeq(s, 1, First(s, <<0>>) - 1) ELSE s

\* the classes of the casts: B and D derive from A, C from B, E from B and F, and F and G from nothing
Parents == << {}, {1}, {2}, {1}, {2, 6}, {}, {} >>
RECURSIVE Above(_)
Above(k) == {k} \cup UNION {Above(p) : p \in Parents[k]}

MsgsOk(row) ==
    LET a == row.a
        Is(w) == row.k = "ok" /\ row.r = w
        Bool(b) == IF b THEN 1 ELSE 0
    IN
    \* every way to read what was streamed so far, after each text: to_string, conversion, operator <<, twice
    CASE row.f = "formatter" ->
            Is(Concat(TLCEval([k \in 1..Len(a[1]) |-> LET c == Concat(SubSeq(a[1], 1, k)) IN <<c, c, c, c>>])))
      [] row.f = "formatter_empty" -> Is(<< <<>>, <<>> >>)
      [] row.f = "formatter_values" -> \* a number, a letter, true or false, a long number, a text, another Formatter with both
            Is(<<NumStr(a[1]) \o a[2] \o (IF a[3] = 1 THEN <<49>> ELSE <<48>>) \o a[4] \o a[5] \o a[5] \o NumStr(a[1])>>)
      [] row.f = "formatter_apart" -> Is(<<a[1], a[2]>>)
      [] row.f = "formatter_of_exception" -> Is(<<a[1] \o a[2]>>)
      \* class, way of building (0 text, 1 string, 2 Formatter), message: what() of it, of a copy, of one assigned,
      \* of what is caught; and by which classes it is caught
      [] row.f = "exception" -> LET m == CStr(a[3]) IN Is(<<m, m, m, m, m>> \o CatchRow(a[1]))
      \* assigning from another one leaves that one as it was
      [] row.f = "exception_assigned" -> Is(<<CStr(a[2]), CStr(a[2]), CStr(a[3]), CStr(a[2])>>)
      [] row.f = "can_cast" -> Is(<<Bool(a[2] \in Above(a[1]))>>)
      [] row.f = "cast_to_void_ptr" -> Is(<<1, 1, 1>>)
=============================================================================
