------------------------------- MODULE PyWait -------------------------------
(* The wait handlers of py_utils: as the ones of Wait, except that a change   *)
(* of the value always notifies, steps of any size are possible, and          *)
(* blocking_disable does not keep the handler to itself: it returns once      *)
(* nobody waits, whatever is done to the handler meanwhile.                   *)
EXTENDS Wait

Amount(x) == IF x.a = <<>> THEN 1 ELSE x.a[1]
YStep(s, t) ==
  LET x == s.th[t] IN
  CASE x.ph = "wait" -> Decide(s, t)
    [] x.ph = "bd" -> IF Waiting(s) # {} THEN {} ELSE {Ok(s, t)}
    [] x.ph = "pend" /\ IsWait(x) ->
         IF ~s.en THEN {Fin(s, t, "disabled", <<>>)}
         ELSE IF Cond(s, x) THEN {Fin(s, t, "met", <<>>)}
         ELSE IF x.a[3] < 0 THEN {Fin(s, t, "timeout", <<>>)}   \* timeout of 0 s
         ELSE {[s EXCEPT !.th[t].ph = "wait"]}
    [] x.ph = "pend" /\ x.op \in {"en", "dis"} -> {Ok(SetEn(s, x.op = "en"), t)}
    [] x.ph = "pend" /\ x.op = "bdis" -> {[SetEn(s, FALSE) EXCEPT !.th[t].ph = "bd"]}
    [] x.ph = "pend" /\ x.op = "isen" -> {Fin(s, t, "val", <<IF s.en THEN 1 ELSE 0>>)}
    [] x.ph = "pend" /\ x.op = "get" -> {Fin(s, t, "val", <<s.val>>)}
    [] x.ph = "pend" /\ x.op = "open" -> {Ok(SetVal(s, 1, TRUE), t)}
    [] x.ph = "pend" /\ x.op = "close" -> {Ok(SetVal(s, 0, TRUE), t)}
    [] x.ph = "pend" /\ x.op = "set" -> {Ok(SetVal(s, x.a[1], TRUE), t)}
    [] x.ph = "pend" /\ x.op = "inc" -> {Ok(SetVal(s, s.val + Amount(x), TRUE), t)}
    [] x.ph = "pend" /\ x.op = "dec" -> {Ok(SetVal(s, s.val - Amount(x), TRUE), t)}
    [] OTHER -> {}
YQuiet(s) == \A t \in DOMAIN s.th : s.th[t].ph # "done" /\ YStep(s, t) = {}
=============================================================================
