------------------------------- MODULE RosMC -------------------------------
(* Laws of Ros on all the names of up to N segments over a few words, some of   *)
(* them nearly prefixes, separators and suffixes of the scheme.                  *)
EXTENDS Ros
CONSTANT N
VARIABLES n

WA == <<97>>
WSrv == <<115, 114, 118>>
WMsg == <<109, 115, 103>>
WDds == <<100, 100, 115, 95>>
WReq == <<82, 101, 113, 117, 101, 115, 116>>
WRep == <<82, 101, 112, 108, 121>>
WUReq == <<95, 82, 101, 113, 117, 101, 115, 116, 95>>
Words == {WA, RT, RQ, RR, WSrv, WMsg, WReq, WRep, WUReq, Nothing}
Parts == UNION {[1..k -> Words] : k \in 1..N}
RECURSIVE Path(_, _)
Path(ws, k) == IF k > Len(ws) THEN Nothing ELSE (IF k = 1 THEN Nothing ELSE Slash) \o ws[k] \o Path(ws, k + 1)

Init == n \in {Path(ws, 1) : ws \in Parts}
Next == UNCHANGED n

TopicLaws ==
    /\ (StartsWith(n, Slash) => DemangleTopic(MangleTopic(n)) = n /\ RemovePrefix(MangleTopic(n), RT) = n)
    /\ (~StartsWith(n, Slash) => MangleTopic(n) = n)
    /\ (Ros(n) = {} => DemangleTopic(n) = n)
    /\ Cardinality(Ros(n)) <= 1
    /\ (Ros(n) # {} => PrefixOf(n) \o DemangleTopic(n) = n)
ServiceLaws ==
    /\ (StartsWith(n, Slash) =>
        LET q == MangleService(RQ, n, Request)
            r == MangleService(RR, n, Reply)
        IN  /\ DemangleService(RQ, q, Request) = n /\ DemangleService(RR, r, Reply) = n
            /\ DemangleService(RR, q, Reply) = Nothing /\ DemangleService(RQ, r, Request) = Nothing
            /\ DemangleEither(q) = n /\ DemangleEither(r) = n
            /\ RemovePrefix(q, RT) = Nothing /\ q # r)
    /\ (~StartsWith(n, Slash) => MangleService(RQ, n, Request) = Nothing)
    /\ (DemangleEither(n) # Nothing => StartsWith(DemangleEither(n), Slash) /\ (HasPrefix(n, RQ) \/ HasPrefix(n, RR)))
TypeLaws ==
    /\ (First(n, MsgPart) # 0 /\ ~EndsWith(n, MsgPart) => DemangleType(MangleType(n)) = n /\ MangleType(n) # n)
    /\ (First(n, MsgPart) = 0 => MangleType(n) = n)
    /\ (First(n, SrvPart) # 0 /\ HasPrefix(n, RQ) /\ ~Contains(From(n, First(n, SrvPart) + 5), Slash)
            => DemangleServiceType(MangleServiceType(n)) = n)
    /\ DemangleServiceType(n) = Nothing
=============================================================================
