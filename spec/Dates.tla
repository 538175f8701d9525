------------------------------- MODULE Dates -------------------------------
(* C02: instants, dates, zones, and their text.  An instant is <<d, s>>: whole  *)
(* days since 1 January 1970 (UTC) and seconds of that day.                      *)
EXTENDS Str, TLC

\* ---- the calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
MonthDays(y, m) == IF m = 2 THEN (IF Leap(y) THEN 29 ELSE 28) ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
YearDays(y) == IF Leap(y) THEN 366 ELSE 365

\* days from 1 January 1970 to 1 January of the year
YearStart(y) ==
    LET z == y - 1   \* leap years up to z, less the ones up to 1969
    IN  365 * (y - 1970) + ((z \div 4) - (z \div 100) + (z \div 400)) - 477
Before28 == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
MonthStart(y, m) == Before28[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0)
DayOf(y, m, d) == YearStart(y) + MonthStart(y, m) + d - 1

YearOf(n) ==
    LET g == 1970 + ((400 * n + 200) \div 146097)
    IN  IF n < YearStart(g) THEN g - 1 ELSE IF n >= YearStart(g + 1) THEN g + 1 ELSE g
Civil(n) ==
    LET y == YearOf(n)
        r == n - YearStart(y)
        m == CHOOSE k \in 1..12 : MonthStart(y, k) <= r /\ (k = 12 \/ r < MonthStart(y, k + 1))
    IN  [y |-> y, m |-> m, d |-> r - MonthStart(y, m) + 1, yd |-> r + 1, wd |-> (n + 4) % 7]

\* ---- instants
Plus(i, s) == LET t == i[2] + s IN <<i[1] + (t \div 86400), t % 86400>>
Earlier(i, j) == i[1] < j[1] \/ (i[1] = j[1] /\ i[2] < j[2])
AtDate(y, m, d, h, mi, s) == Plus(<<DayOf(y, m, d), 0>>, h * 3600 + mi * 60 + s)

\* ---- zones: offset in seconds, name, and for those with summer time its offset, name and the days and times
\* (in the time that ends then) of the year it begins and ends
Zones == <<
    [off |-> 0, sum |-> 0, dst |-> FALSE, n |-> <<85, 84, 67>>, sn |-> <<>>],
    [off |-> 19800, sum |-> 19800, dst |-> FALSE, n |-> <<73, 83, 84>>, sn |-> <<>>],
    [off |-> 3600, sum |-> 7200, dst |-> TRUE, n |-> <<67, 69, 84>>, sn |-> <<67, 69, 83, 84>>,
     bm |-> 3, bw |-> 5, bh |-> 2, em |-> 10, ew |-> 5, eh |-> 3],
    [off |-> -18000, sum |-> -14400, dst |-> TRUE, n |-> <<69, 83, 84>>, sn |-> <<69, 68, 84>>,
     bm |-> 3, bw |-> 2, bh |-> 2, em |-> 11, ew |-> 1, eh |-> 2],
    [off |-> 36000, sum |-> 39600, dst |-> TRUE, n |-> <<65, 69, 83, 84>>, sn |-> <<65, 69, 68, 84>>,
     bm |-> 10, bw |-> 1, bh |-> 2, em |-> 4, ew |-> 1, eh |-> 3],
    [off |-> -43200, sum |-> -43200, dst |-> FALSE, n |-> <<88, 88, 88>>, sn |-> <<>>]
>>

\* the w-th Sunday of the month (5: the last one)
Sunday(y, m, w) ==
    LET f == DayOf(y, m, 1)
        s == f + ((7 - ((f + 4) % 7)) % 7)
        c == s + 7 * (w - 1)
    IN  IF w = 5 /\ c >= f + MonthDays(y, m) THEN c - 7 ELSE c
Begin(z, y) == Plus(<<Sunday(y, z.bm, z.bw), 0>>, z.bh * 3600 - z.off)
End(z, y) == Plus(<<Sunday(y, z.em, z.ew), 0>>, z.eh * 3600 - z.sum)
Summer(z, i) ==
    /\ z.dst
    /\ LET y == YearOf(Plus(i, z.off)[1])
           b == Begin(z, y)  e == End(z, y)
       IN  IF Earlier(b, e) THEN ~Earlier(i, b) /\ Earlier(i, e) ELSE ~Earlier(i, b) \/ Earlier(i, e)
Offset(z, i) == IF Summer(z, i) THEN z.sum ELSE z.off

\* what clocks and calendars show in the zone; the instants when they show it (none in the hour that is skipped,
\* two in the one that is repeated)
Local(z, i) == Plus(i, Offset(z, i))
Instants(z, l) == {i \in {Plus(l, -z.off), Plus(l, -z.sum)} : Local(z, i) = l}

\* ---- text
RECURSIVE Pad(_, _, _)
Pad(t, n, c) == IF Len(t) >= n THEN t ELSE Pad(<<c>> \o t, n, c)
Two(n) == Pad(Digits(n), 2, 48)
DayNames == << <<83,117,110,100,97,121>>, <<77,111,110,100,97,121>>, <<84,117,101,115,100,97,121>>,
               <<87,101,100,110,101,115,100,97,121>>, <<84,104,117,114,115,100,97,121>>, <<70,114,105,100,97,121>>,
               <<83,97,116,117,114,100,97,121>> >>
MonthNames == << <<74,97,110,117,97,114,121>>, <<70,101,98,114,117,97,114,121>>, <<77,97,114,99,104>>,
                 <<65,112,114,105,108>>, <<77,97,121>>, <<74,117,110,101>>, <<74,117,108,121>>, <<65,117,103,117,115,116>>,
                 <<83,101,112,116,101,109,98,101,114>>, <<79,99,116,111,98,101,114>>, <<78,111,118,101,109,98,101,114>>,
                 <<68,101,99,101,109,98,101,114>> >>
GMT == <<71, 77, 84>>

\* one conversion of a format, of the clock and calendar l; zn the name of the zone, zo its offset
RECURSIVE Conv(_, _, _, _)
RECURSIVE Show(_, _, _, _)
Conv(c, l, zn, zo) ==
    LET v == Civil(l[1])
        h == l[2] \div 3600  mi == (l[2] \div 60) % 60  s == l[2] % 60
        h12 == IF h % 12 = 0 THEN 12 ELSE h % 12
        az == IF zo < 0 THEN -zo ELSE zo
    IN  CASE c = 89 -> Digits(v.y)                                              \* Y
          [] c = 109 -> Two(v.m)                                                \* m
          [] c = 100 -> Two(v.d)                                                \* d
          [] c = 101 -> Pad(Digits(v.d), 2, 32)                                 \* e
          [] c = 72 -> Two(h)                                                   \* H
          [] c = 73 -> Two(h12)                                                 \* I
          [] c = 77 -> Two(mi)                                                  \* M
          [] c = 83 -> Two(s)                                                   \* S
          [] c = 121 -> Two(v.y % 100)                                          \* y
          [] c = 67 -> Two(v.y \div 100)                                        \* C
          [] c = 106 -> Pad(Digits(v.yd), 3, 48)                                \* j
          [] c = 112 -> IF h < 12 THEN <<65, 77>> ELSE <<80, 77>>               \* p
          [] c = 65 -> DayNames[v.wd + 1]                                       \* A
          [] c = 97 -> SubSeq(DayNames[v.wd + 1], 1, 3)                         \* a
          [] c = 66 -> MonthNames[v.m]                                          \* B
          [] c \in {98, 104} -> SubSeq(MonthNames[v.m], 1, 3)                   \* b h
          [] c = 119 -> Digits(v.wd)                                            \* w
          [] c = 117 -> Digits(IF v.wd = 0 THEN 7 ELSE v.wd)                    \* u
          [] c = 90 -> zn                                                       \* Z
          [] c = 122 -> <<IF zo < 0 THEN 45 ELSE 43>> \o Two(az \div 3600) \o Two((az \div 60) % 60)  \* z
          [] c = 37 -> <<37>>                                                   \* %
          [] c = 110 -> <<10>>                                                  \* n
          [] c = 116 -> <<9>>                                                   \* t
          [] c = 70 -> Show(<<37, 89, 45, 37, 109, 45, 37, 100>>, l, zn, zo)   \* F = %Y-%m-%d
          [] c = 84 -> Show(<<37, 72, 58, 37, 77, 58, 37, 83>>, l, zn, zo)     \* T = %H:%M:%S
          [] c = 82 -> Show(<<37, 72, 58, 37, 77>>, l, zn, zo)                 \* R = %H:%M
          [] c = 68 -> Show(<<37, 109, 47, 37, 100, 47, 37, 121>>, l, zn, zo)  \* D = %m/%d/%y
Show(f, l, zn, zo) ==
    IF f = <<>> THEN <<>>
    ELSE IF f[1] = 37 /\ Len(f) >= 2 THEN Conv(f[2], l, zn, zo) \o Show(From(f, 3), l, zn, zo)
    ELSE <<f[1]>> \o Show(Tail(f), l, zn, zo)

Default == <<37, 89, 45, 37, 109, 45, 37, 100, 95, 37, 72, 45, 37, 77, 45, 37, 83>>
ToText(i, f, loc, z) ==
    IF loc THEN Show(f, Local(z, i), IF Summer(z, i) THEN z.sn ELSE z.n, Offset(z, i)) ELSE Show(f, i, GMT, 0)

\* reading: numbers of exactly the digits that are printed; [ok, v] with v the fields found
Num(t, n) ==
    IF Len(t) >= n /\ \A k \in 1..n : t[k] \in 48..57
    THEN LET RECURSIVE val(_) val(k) == IF k = 0 THEN 0 ELSE val(k - 1) * 10 + t[k] - 48 IN val(n) ELSE -1
None == [ok |-> FALSE, y |-> 1900, m |-> 1, d |-> 0, h |-> 0, mi |-> 0, s |-> 0]
Width(c) == IF c = 89 THEN 4 ELSE 2
Low(c) == IF c \in {109, 100} THEN 1 ELSE 0
High(c) == CASE c = 89 -> 9999 [] c = 109 -> 12 [] c = 100 -> 31 [] c = 72 -> 23 [] OTHER -> 59
Longer(c) == CASE c = 84 -> <<37, 72, 58, 37, 77, 58, 37, 83>> [] c = 82 -> <<37, 72, 58, 37, 77>>
RECURSIVE Read(_, _, _)
Read(f, t, v) ==
    IF f = <<>> THEN [v EXCEPT !.ok = TRUE]
    ELSE IF f[1] = 37 /\ f[2] \in {84, 82} THEN Read(Longer(f[2]) \o From(f, 3), t, v)
    ELSE IF f[1] = 37
    THEN LET c == f[2]
             w == Width(c)
             x == Num(t, w)
             r == From(t, w + 1)
         IN  IF x < Low(c) \/ x > High(c) THEN None
             ELSE Read(From(f, 3), r, CASE c = 89 -> [v EXCEPT !.y = x] [] c = 109 -> [v EXCEPT !.m = x]
                                         [] c = 100 -> [v EXCEPT !.d = x] [] c = 72 -> [v EXCEPT !.h = x]
                                         [] c = 77 -> [v EXCEPT !.mi = x] [] c = 83 -> [v EXCEPT !.s = x])
    ELSE IF t # <<>> /\ t[1] = f[1] THEN Read(Tail(f), Tail(t), v) ELSE None
FromText(t, f) == Read(f, t, None)
Fields(v) == AtDate(v.y, v.m, v.d, v.h, v.mi, v.s)

\* whatever mktime makes of the hour that is skipped: the instant before or after it with either offset
Around(z, l) == {Plus(l, -z.off), Plus(l, -z.sum)}

DatesOk(row) ==
    LET a == row.a
        Is(w) == row.k = "ok" /\ row.r = w
        In(S) == row.k = "ok" /\ \E i \in S : row.r = i
        z(k) == Zones[k + 1]
    IN
    CASE row.f = "date_to_timestamp" -> Is(AtDate(a[1], a[2], a[3], a[4], a[5], a[6]) \o <<0>>)
      [] row.f = "date_to_timestamp_short" -> Is(AtDate(a[1], a[2], a[3], 0, 0, 0) \o <<0>>)
      \* (the fake clock shows the instant <<a[1], a[2]>>)
      [] row.f = "time_to_timestamp" -> Is(Plus(<<a[1], 0>>, a[3] * 3600 + a[4] * 60 + a[5]) \o <<0>>)
      [] row.f = "now" -> Is(<<a[1], a[2], a[3]>>)
      \* instant (with nanoseconds), format, zone of the process, whether local
      [] row.f = "timestamp_to_string" ->
            \/ Is(<<ToText(<<a[1], a[2]>>, a[4], a[6] = 1, z(a[5]))>>)
            \* before the epoch the fraction may round up
            \/ a[1] < 0 /\ a[3] # 0 /\ Is(<<ToText(Plus(<<a[1], a[2]>>, 1), a[4], a[6] = 1, z(a[5]))>>)
      [] row.f = "timestamp_to_string_default" -> Is(<<ToText(<<a[1], a[2]>>, Default, FALSE, z(0))>>)
      \* text, format, zone, whether local
      [] row.f = "string_to_timestamp" ->
            LET v == FromText(a[1], a[2])
                l == Fields(v)
                s == IF Instants(z(a[3]), l) = {} THEN Around(z(a[3]), l) ELSE Instants(z(a[3]), l)
            IN  IF ~v.ok THEN row.k = "PreconditionNotMet"
                ELSE IF a[4] = 1 THEN In({i \o <<0>> : i \in s}) ELSE Is(l \o <<0>>)
      [] row.f = "both" ->  \* printed and read back: date and time have to come back
            IF a[5] = 0 THEN Is(<<a[1], a[2], 0>>)
            ELSE In({i \o <<0>> : i \in Instants(z(a[4]), Local(z(a[4]), <<a[1], a[2]>>))})
      [] row.f = "duration_to_ms" -> Is(<<a[1]>>)
      [] row.f = "ends" -> Is(<<1, 1, 1>>)
      [] row.f = "normalize" -> Is(<<a[1], a[2]>>)
      [] row.f = "sleep_for" -> row.k = "ok" /\ row.r[1] = 1
=============================================================================
