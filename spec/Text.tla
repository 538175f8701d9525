-------------------------------- MODULE Text --------------------------------
(* S01: answers of the text functions of utils, from the definitions of Str.   *)
EXTENDS Str, TLC

Bool(b) == IF b THEN 1 ELSE 0

\* sets of pointers, given as (identity, value) pairs, value -1 for nullptr
PtrIn(set, e) == \E x \in set : x = e \/ (e[2] # -1 /\ x[2] # -1 /\ x[2] = e[2])
Pairs(ns) == {<<ns[2 * k - 1], ns[2 * k]>> : k \in 1..(Len(ns) \div 2)}
Distinct(S) == \A x, y \in S : x # y => x[2] # y[2]

TextOk(row) ==
    LET a == row.a  r == row.r
        Is(w) == row.k = "ok" /\ r = w
    IN
    CASE row.f = "to_lowercase" -> Is(<<MapStr(Lower, a[1])>>)
      [] row.f = "to_uppercase" -> Is(<<MapStr(Upper, a[1])>>)
      [] row.f = "match_pattern" -> Is(<<Bool(Match(a[1], a[2]))>>)
      [] row.f = "replace_first" -> Is(<<Bool(Contains(a[1], a[2])), ReplaceFirst(a[1], a[2], a[3])>>)
      [] row.f = "replace_all" -> LET h == ReplaceAll(a[1], a[2], a[3]) IN Is(<<h.n, h.s>>)
      [] row.f = "strip_str" ->
            LET h == Strip(a[1], a[2], Sorted(Elements(a[3]))) IN Is(<<h.n, h.s>>)
      [] row.f = "strip_str_default" -> LET h == Strip(a[1], <<>>, <<<<10>>, <<13>>>>) IN Is(<<h.n, h.s>>)
      [] row.f = "split_string" -> Is(<<Split(a[1], a[2])>>)
      [] row.f = "split_string_each" -> Is(<<SplitEach(a[1], a[2])>>)
      [] row.f = "split_string_set" -> Is(<<SplitSet(<<a[1]>>, Sorted(Elements(a[2])))>>)
      [] row.f = "container_to_stream" -> Is(<<Brace(a[1], a[2])>>)
      [] row.f = "container_to_stream_default" -> Is(<<Brace(a[1], <<59>>)>>)
      [] row.f = "container_to_stream_set" -> Is(<<Brace(Sorted(Elements(a[1])), a[2])>>)
      [] row.f = "container_to_stream_ptr" -> Is(<<Brace(a[1], a[2])>>)
      [] row.f = "generic_to_string" -> Is(<<a[1]>>)
      [] row.f = "generic_to_string_int" -> Is(<<NumStr(a[1])>>)
      [] row.f = "get_keys" -> Is(<<Sorted(Elements(a[1]))>>)
      [] row.f = "get_keys_unordered" -> Is(<<Sorted(Elements(a[1]))>>)
      [] row.f = "set_of_ptr_contains" -> Is(<<Bool(PtrIn(Pairs(a[1]), <<a[2], a[3]>>))>>)
      [] row.f = "are_set_of_ptr_equal" ->
            LET A == Pairs(a[1])  B == Pairs(a[2])
                same == Cardinality(A) = Cardinality(B) /\ \A x \in A : PtrIn(B, x)
                emas == Cardinality(A) = Cardinality(B) /\ \A x \in B : PtrIn(A, x)
            IN  row.k = "ok" /\ (same = emas => r = <<Bool(same)>>)
      [] row.f = "convert_set_to_shared" -> Is(<<Sorted(Elements(a[1]))>>)
      [] row.f = "copy_to_void_ptr" -> Is(<<a[1]>>)
      [] row.f = "file_access_mode" ->
            LET bit(x, b) == (x \div b) % 2
                or == (IF bit(a[1], 1) + bit(a[2], 1) > 0 THEN 1 ELSE 0) + (IF bit(a[1], 2) + bit(a[2], 2) > 0 THEN 2 ELSE 0)
                      + (IF bit(a[1], 4) + bit(a[2], 4) > 0 THEN 4 ELSE 0)
                and == bit(a[1], 1) * bit(a[2], 1) + 2 * bit(a[1], 2) * bit(a[2], 2) + 4 * bit(a[1], 4) * bit(a[2], 4)
            IN  Is(<<or, and>>)
      [] row.f = "file_access_names" -> Is(<<0, 4, 2, 1, 6, 5, 7, 3>>)
=============================================================================
