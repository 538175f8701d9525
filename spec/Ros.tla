-------------------------------- MODULE Ros --------------------------------
(* S03: ROS 2 names as they travel in DDS.  A topic /a/b travels as rt/a/b, the *)
(* request and reply topics of a service /a/b as rq/a/bRequest and rr/a/bReply, *)
(* a type a/msg/T as a::msg::dds_::T_, and the types of a service as             *)
(* a::srv::dds_::T_Request_ and a::srv::dds_::T_Response_.                       *)
EXTENDS Str, TLC

RT == <<114, 116>>
RQ == <<114, 113>>
RR == <<114, 114>>
Slash == <<47>>
Colons == <<58, 58>>
Dds == <<100, 100, 115, 95, 58, 58>>
MsgPart == <<47, 109, 115, 103, 47>>
SrvPart == <<47, 115, 114, 118, 47>>
Request == <<82, 101, 113, 117, 101, 115, 116>>
Reply == <<82, 101, 112, 108, 121>>
TReq == <<95, 82, 101, 113, 117, 101, 115, 116, 95>>
TRes == <<95, 82, 101, 115, 112, 111, 110, 115, 101, 95>>
Under == <<95>>
Nothing == <<>>
Prefixes == <<RT, RQ, RR>>

Swap(s, d, b) == ReplaceAll(s, d, b).s

\* ---- prefixes: whole first segments of the name
HasPrefix(n, p) == StartsWith(n, p \o Slash)
RemovePrefix(n, p) == IF HasPrefix(n, p) THEN From(n, Len(p) + 1) ELSE Nothing
Ros(n) == {k \in 1..3 : HasPrefix(n, Prefixes[k])}
PrefixOf(n) == IF Ros(n) = {} THEN Nothing ELSE Prefixes[CHOOSE k \in Ros(n) : TRUE]

MangleTopic(n) == IF StartsWith(n, Slash) THEN RT \o n ELSE n
DemangleTopic(n) == IF Ros(n) = {} THEN n ELSE RemovePrefix(n, PrefixOf(n))

\* ---- services
MangleService(p, n, x) == IF StartsWith(n, Slash) THEN p \o n \o x ELSE Nothing
DemangleService(p, n, x) ==
    LET s == RemovePrefix(n, p)
    IN  IF s # Nothing /\ EndsWith(s, x) THEN SubSeq(s, 1, Len(s) - Len(x)) ELSE Nothing
DemangleEither(n) ==
    LET r == DemangleService(RR, n, Reply)
    IN  IF r # Nothing THEN r ELSE DemangleService(RQ, n, Request)

\* ---- types
MangleType(t) ==
    LET p == First(t, MsgPart)
        name == From(t, p + Len(MsgPart))
    IN  IF p = 0 \/ name = Nothing THEN t
        ELSE Swap(SubSeq(t, 1, p + Len(MsgPart) - 1), Slash, Colons) \o Dds \o name \o Under
DemangleType(t) ==
    LET p == First(t, Dds)
    IN  IF ~EndsWith(t, Under) \/ t = Nothing \/ p = 0 THEN t
        ELSE Swap(SubSeq(t, 1, p - 1), Colons, Slash) \o SubSeq(t, p + Len(Dds), Len(t) - 1)

MangleServiceType(t) ==
    LET p == First(t, SrvPart)
        x == IF HasPrefix(t, RQ) THEN TReq ELSE IF HasPrefix(t, RR) THEN TRes ELSE Nothing
    IN  IF p = 0 \/ x = Nothing THEN Nothing
        ELSE Swap(SubSeq(t, 1, p + Len(SrvPart) - 1), Slash, Colons) \o Dds
             \o Swap(From(t, p + Len(SrvPart)), Slash, Colons) \o x
DemangleServiceType(t) ==
    LET p == First(t, Dds)
        x == IF EndsWith(t, TReq) THEN TReq ELSE IF EndsWith(t, TRes) THEN TRes ELSE Nothing
    IN  IF p = 0 \/ x = Nothing THEN Nothing
        ELSE Swap(SubSeq(t, 1, p - 1), Colons, Slash) \o SubSeq(t, p + Len(Dds), Len(t) - Len(x))

RosOk(row) ==
    LET a == row.a
        Is(w) == row.k = "ok" /\ row.r = w
    IN
    CASE row.f = "remove_prefix" -> Is(<<RemovePrefix(a[1], a[2])>>)
      [] row.f = "add_prefix" -> Is(<<a[2] \o a[1]>>)
      [] row.f = "add_suffix" -> Is(<<a[1] \o a[2]>>)
      [] row.f = "get_all_ros_prefixes" -> Is(<<Prefixes>>)
      [] row.f = "get_ros_prefix_if_exists" -> Is(<<PrefixOf(a[1])>>)
      [] row.f = "remove_ros_prefix_if_exists" -> Is(<<DemangleTopic(a[1])>>)
      [] row.f = "demangle_if_ros_topic" -> Is(<<DemangleTopic(a[1])>>)
      [] row.f = "mangle_if_ros_topic" -> Is(<<MangleTopic(a[1])>>)
      [] row.f = "add_ros_topic_prefix" -> Is(<<RT \o a[1]>>)
      [] row.f = "add_ros_service_requester_prefix" -> Is(<<RQ \o a[1]>>)
      [] row.f = "add_ros_service_response_prefix" -> Is(<<RR \o a[1]>>)
      [] row.f = "demangle_if_ros_type" -> Is(<<DemangleType(a[1])>>)
      [] row.f = "mangle_if_ros_type" -> Is(<<MangleType(a[1])>>)
      [] row.f = "demangle_ros_topic_prefix_from_topic" -> Is(<<RemovePrefix(a[1], RT)>>)
      [] row.f = "demangle_ros_service_prefix_from_topic" -> Is(<<DemangleEither(a[1])>>)
      [] row.f = "demangle_ros_service_request_prefix_from_topic" -> Is(<<DemangleService(RQ, a[1], Request)>>)
      [] row.f = "demangle_ros_service_reply_prefix_from_topic" -> Is(<<DemangleService(RR, a[1], Reply)>>)
      [] row.f = "mangle_ros_service_request_prefix_in_topic" -> Is(<<MangleService(RQ, a[1], Request)>>)
      [] row.f = "mangle_ros_service_reply_prefix_in_topic" -> Is(<<MangleService(RR, a[1], Reply)>>)
      [] row.f = "demangle_service_type_only" -> Is(<<DemangleServiceType(a[1])>>)
      [] row.f = "mangle_service_type_only" -> Is(<<MangleServiceType(a[1])>>)
=============================================================================
