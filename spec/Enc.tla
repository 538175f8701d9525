-------------------------------- MODULE Enc --------------------------------
(* S02: encodings of utils: base 64, quantities of bytes, numbers with zeros.  *)
(* Bytes are 0..255, texts sequences of character codes, big numbers Big.      *)
EXTENDS Str, Big, TLC

\* ---- base 64: three bytes are four characters of six bits
Alphabet64 == TLCEval([k \in 1..64 |->
    IF k <= 26 THEN 64 + k ELSE IF k <= 52 THEN 70 + k ELSE IF k <= 62 THEN k - 5 ELSE IF k = 63 THEN 43 ELSE 47])
Pad == 61

RECURSIVE Encode(_)
Encode(s) ==
    IF s = <<>> THEN <<>>
    ELSE LET b1 == s[1]
             b2 == IF Len(s) >= 2 THEN s[2] ELSE 0
             b3 == IF Len(s) >= 3 THEN s[3] ELSE 0
         IN  << Alphabet64[(b1 \div 4) + 1],
                Alphabet64[((b1 % 4) * 16) + (b2 \div 16) + 1],
                IF Len(s) >= 2 THEN Alphabet64[((b2 % 16) * 4) + (b3 \div 64) + 1] ELSE Pad,
                IF Len(s) >= 3 THEN Alphabet64[(b3 % 64) + 1] ELSE Pad >> \o Encode(From(s, 4))

Value64(c) == CHOOSE v \in 0..63 : Alphabet64[v + 1] = c
Is64(c) == \E k \in 1..64 : Alphabet64[k] = c

\* the whole bytes of the characters before the first one out of the alphabet
RECURSIVE Prefix64(_)
Prefix64(s) == IF s = <<>> \/ ~Is64(s[1]) THEN <<>> ELSE <<Value64(s[1])>> \o Prefix64(Tail(s))
RECURSIVE Bytes(_)
Bytes(v) ==
    IF Len(v) < 2 THEN <<>>
    ELSE <<(v[1] * 4) + (v[2] \div 16)>>
         \o (IF Len(v) < 3 THEN <<>> ELSE <<((v[2] % 16) * 16) + (v[3] \div 4)>>)
         \o (IF Len(v) < 4 THEN <<>> ELSE <<((v[3] % 4) * 64) + v[4]>>)
         \o Bytes(From(v, 5))
Decode(s) == Bytes(Prefix64(s))

\* ---- quantities: digits [. digits] spaces magnitude
IsDigit(c) == c >= 48 /\ c <= 57
IsSpace(c) == c \in {32} \cup (9..13)
IsLetter(c) == (c >= 65 /\ c <= 90) \/ (c >= 97 /\ c <= 122)

RECURSIVE SpanLen(_, _)
SpanLen(T(_), s) == IF s # <<>> /\ T(s[1]) THEN 1 + SpanLen(T, Tail(s)) ELSE 0

\* the text in its parts: [ok, whole, dec, unit]
Quantity(s) ==
    LET w == SpanLen(IsDigit, s)
        s1 == From(s, w + 1)
        point == s1 # <<>> /\ s1[1] = 46
        d == IF point THEN SpanLen(IsDigit, Tail(s1)) ELSE 0
        s2 == IF point THEN From(s1, d + 2) ELSE s1
        s3 == From(s2, SpanLen(IsSpace, s2) + 1)
        l == SpanLen(IsLetter, s3)
    IN  [ok |-> w >= 1 /\ (point => d >= 1) /\ l >= 1 /\ l = Len(s3),
         whole |-> SubSeq(s, 1, w), dec |-> IF point THEN SubSeq(s1, 2, d + 1) ELSE <<>>, unit |-> MapStr(Upper, s3)]

\* magnitudes and their bytes: powers of 1000 and powers of 1024 (EncMC)
Units == <<
    [n |-> <<66>>, v |-> <<1>>],
    [n |-> <<75, 66>>, v |-> <<0, 0, 0, 1>>],
    [n |-> <<77, 66>>, v |-> <<0, 0, 0, 0, 0, 0, 1>>],
    [n |-> <<71, 66>>, v |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>],
    [n |-> <<84, 66>>, v |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>],
    [n |-> <<80, 66>>, v |-> <<0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1>>],
    [n |-> <<75, 73, 66>>, v |-> <<4, 2, 0, 1>>],
    [n |-> <<77, 73, 66>>, v |-> <<6, 7, 5, 8, 4, 0, 1>>],
    [n |-> <<71, 73, 66>>, v |-> <<4, 2, 8, 1, 4, 7, 3, 7, 0, 1>>],
    [n |-> <<84, 73, 66>>, v |-> <<6, 7, 7, 7, 2, 6, 1, 1, 5, 9, 9, 0, 1>>],
    [n |-> <<80, 73, 66>>, v |-> <<4, 2, 6, 2, 4, 8, 6, 0, 9, 9, 9, 8, 5, 2, 1, 1>>]>>

Num(ds) == BTrim(TLCEval([k \in 1..Len(ds) |-> ds[Len(ds) + 1 - k] - 48]))     \* text of digits as Big
Drop(n, k) == IF k >= Len(n) THEN <<>> ELSE BTrim(From(n, k + 1))     \* Big divided by 10 ^ k

\* the bytes of a quantity (without what is left of a byte), or none
ToBytes(s) ==
    LET q == Quantity(s)
        us == {k \in 1..Len(Units) : Units[k].n = q.unit}
    IN  IF ~q.ok \/ us = {} THEN [ok |-> FALSE]
        ELSE LET u == Units[CHOOSE k \in us : TRUE]
                 n == Drop(BMul(Num(q.whole \o q.dec), u.v), Len(q.dec))
             IN  IF BLess(n, Pow64) THEN [ok |-> TRUE, n |-> n] ELSE [ok |-> FALSE]

\* bytes as text: the closest magnitude, two decimals unless they are negligible (under one hundredth)
Names == <<<<66>>, <<75, 66>>, <<77, 66>>, <<71, 66>>, <<84, 66>>, <<80, 66>>>>
Text(ds) == IF ds = <<>> THEN <<48>> ELSE TLCEval([k \in 1..Len(ds) |-> ds[Len(ds) + 1 - k] + 48])    \* Big as text
FromBytes(n) ==      \* set of answers (more than one when the number is exactly between two)
    LET m == IF n = <<>> THEN 0 ELSE IF Len(n) > 16 THEN 5 ELSE (Len(n) - 1) \div 3
        whole == From(n, 3 * m + 1)
        frac == SubSeq(n, 1, 3 * m)                    \* thousandths and below, least significant first
        d1 == IF m = 0 THEN 0 ELSE frac[3 * m]
        d2 == IF m = 0 THEN 0 ELSE frac[3 * m - 1]
        below == IF m = 0 THEN <<>> ELSE SubSeq(frac, 1, 3 * m - 2)
        exact == BTrim(below) = <<>>
        half == TLCEval([k \in 1..Len(below) |-> IF k = Len(below) THEN 5 ELSE 0])
        hundredths == <<d2, d1>> \o whole
        down == hundredths
        up == BAdd(hundredths, <<1>>)
        two(h) == Text(From(h, 3)) \o <<46, 48 + BDigit(h, 2), 48 + BDigit(h, 1)>>
        int == Text(whole)
        decs == IF m = 0 THEN {} ELSE
                IF BLess(below, half) THEN {two(down)} ELSE IF BEq(below, half) THEN {two(down), two(up)} ELSE {two(up)}
        plain == d1 = 0 /\ d2 = 0
        edge == d1 = 0 /\ d2 = 1 /\ exact
        texts == IF m = 0 \/ plain THEN {int} ELSE IF edge THEN decs \cup {int} ELSE decs
    IN  {t \o Names[m + 1] : t \in texts}

\* ---- numbers with zeros
Zeros(n) == [k \in 1..n |-> 48]
Padded(v, n) ==      \* v: [neg, digits (text)]
    LET sign == IF v.neg THEN <<45>> ELSE <<>>
        l == Len(sign) + Len(v.ds)
    IN  IF l >= n THEN sign \o v.ds ELSE sign \o Zeros(n - l) \o v.ds
Fits(v, n) == Len(v.ds) + (IF v.neg THEN 1 ELSE 0) <= n

EncOk(row) ==
    LET a == row.a  r == row.r
        Is(w) == row.k = "ok" /\ r = w
    IN
    CASE row.f = "base64_encode" -> Is(<<Encode(a[1])>>)
      [] row.f = "base64_decode" -> Is(<<Decode(a[1])>>)
      [] row.f = "base64_both" -> Is(<<a[1]>>)
      [] row.f = "base64_alphabet" -> Is(<<Alphabet64>>)
      [] row.f = "to_bytes" ->
            LET w == ToBytes(a[1])
            IN  IF w.ok THEN row.k = "ok" /\ BEq(r[1], w.n) ELSE row.k = "std::invalid_argument"
      [] row.f = "from_bytes" -> row.k = "ok" /\ r[1] \in FromBytes(BTrim(a[1]))
      [] row.f = "number_format" ->      \* negative, digits, width, whether more are allowed
            LET v == [neg |-> a[1] = 1, ds |-> a[2]]
            IN  IF a[4] = 1 \/ Fits(v, a[3]) THEN Is(<<Padded(v, a[3])>>) ELSE row.k = "PreconditionNotMet"
=============================================================================
