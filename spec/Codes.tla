------------------------------- MODULE Codes -------------------------------
(* R01: return codes and the names of the QoS policies.                        *)
EXTENDS Str, TLC

\* the codes of the library, 0..5, and their names
CodeNames == <<
    <<79, 107>>,  \* Ok
    <<69, 114, 114, 111, 114>>,  \* Error
    <<85, 110, 107, 110, 111, 119, 110>>,  \* Unknown
    <<78, 111, 68, 97, 116, 97>>,  \* NoData
    <<78, 111, 116, 69, 110, 97, 98, 108, 101, 100>>,  \* NotEnabled
    <<80, 114, 101, 99, 111, 110, 100, 105, 116, 105, 111, 110, 78, 111, 116, 77, 101, 116>>  \* PreconditionNotMet
>>
Codes == 0..5
Ok == 0  Error == 1  Unknown == 2  NoData == 3  NotEnabled == 4  PreconditionNotMet == 5

\* codes of Fast DDS: OK, the ones with a code of their own, the errors, and all the other numbers
FromDds(c) ==
    CASE c = 0 -> Ok
      [] c = 11 -> NoData
      [] c = 6 -> NotEnabled
      [] c = 4 -> PreconditionNotMet
      [] c \in {1, 2, 3, 5, 7, 8, 9, 10, 12} -> Error
      [] OTHER -> Unknown

\* names of the policies 1..36
PolicyNames == <<
    <<85, 115, 101, 114, 32, 100, 97, 116, 97>>,  \* User data
    <<68, 117, 114, 97, 98, 105, 108, 105, 116, 121>>,  \* Durability
    <<80, 114, 101, 115, 101, 110, 116, 97, 116, 105, 111, 110>>,  \* Presentation
    <<68, 101, 97, 100, 108, 105, 110, 101>>,  \* Deadline
    <<76, 97, 116, 101, 110, 99, 121, 32, 98, 117, 100, 103, 101, 116>>,  \* Latency budget
    <<79, 119, 110, 101, 114, 115, 104, 105, 112>>,  \* Ownership
    <<79, 119, 110, 101, 114, 115, 104, 105, 112, 32, 115, 116, 114, 101, 110, 103, 116, 104>>,  \* Ownership strength
    <<76, 105, 118, 101, 108, 105, 110, 101, 115, 115>>,  \* Liveliness
    <<84, 105, 109, 101, 45, 98, 97, 115, 101, 100, 32, 102, 105, 108, 116, 101, 114>>,  \* Time-based filter
    <<80, 97, 114, 116, 105, 116, 105, 111, 110>>,  \* Partition
    <<82, 101, 108, 105, 97, 98, 105, 108, 105, 116, 121>>,  \* Reliability
    <<68, 101, 115, 116, 105, 110, 97, 116, 105, 111, 110, 32, 111, 114, 100, 101, 114>>,  \* Destination order
    <<72, 105, 115, 116, 111, 114, 121>>,  \* History
    <<82, 101, 115, 111, 117, 114, 99, 101, 32, 108, 105, 109, 105, 116, 115>>,  \* Resource limits
    <<69, 110, 116, 105, 116, 121, 32, 102, 97, 99, 116, 111, 114, 121>>,  \* Entity factory
    <<87, 114, 105, 116, 101, 114, 32, 100, 97, 116, 97, 32, 108, 105, 102, 101, 99, 121, 99, 108, 101>>,  \* Writer data lifecycle
    <<82, 101, 97, 100, 101, 114, 32, 100, 97, 116, 97, 32, 108, 105, 102, 101, 99, 121, 99, 108, 101>>,  \* Reader data lifecycle
    <<84, 111, 112, 105, 99, 32, 100, 97, 116, 97>>,  \* Topic data
    <<71, 114, 111, 117, 112, 32, 100, 97, 116, 97>>,  \* Group data
    <<84, 114, 97, 110, 115, 112, 111, 114, 116, 32, 112, 114, 105, 111, 114, 105, 116, 121>>,  \* Transport priority
    <<76, 105, 102, 101, 115, 112, 97, 110>>,  \* Lifespan
    <<68, 117, 114, 97, 98, 105, 108, 105, 116, 121, 32, 115, 101, 114, 118, 105, 99, 101>>,  \* Durability service
    <<68, 97, 116, 97, 32, 114, 101, 112, 114, 101, 115, 101, 110, 116, 97, 116, 105, 111, 110>>,  \* Data representation
    <<84, 121, 112, 101, 32, 99, 111, 110, 115, 105, 115, 116, 101, 110, 99, 121, 32, 101, 110, 102, 111, 114, 99, 101, 109, 101, 110, 116>>,  \* Type consistency enforcement
    <<68, 105, 115, 97, 98, 108, 101, 32, 112, 111, 115, 105, 116, 105, 118, 101, 32, 97, 99, 107, 115>>,  \* Disable positive acks
    <<80, 97, 114, 116, 105, 99, 105, 112, 97, 110, 116, 32, 114, 101, 115, 111, 117, 114, 99, 101, 32, 108, 105, 109, 105, 116, 115>>,  \* Participant resource limits
    <<80, 114, 111, 112, 101, 114, 116, 121, 32, 112, 111, 108, 105, 99, 121>>,  \* Property policy
    <<80, 117, 98, 108, 105, 115, 104, 32, 109, 111, 100, 101>>,  \* Publish mode
    <<82, 101, 97, 100, 101, 114, 32, 114, 101, 115, 111, 117, 114, 99, 101, 32, 108, 105, 109, 105, 116, 115>>,  \* Reader resource limits
    <<82, 84, 80, 83, 32, 101, 110, 100, 112, 111, 105, 110, 116>>,  \* RTPS endpoint
    <<82, 84, 80, 83, 32, 114, 101, 108, 105, 97, 98, 108, 101, 32, 114, 101, 97, 100, 101, 114>>,  \* RTPS reliable reader
    <<82, 84, 80, 83, 32, 114, 101, 108, 105, 97, 98, 108, 101, 32, 119, 114, 105, 116, 101, 114>>,  \* RTPS reliable writer
    <<84, 114, 97, 110, 115, 112, 111, 114, 116, 32, 99, 111, 110, 102, 105, 103>>,  \* Transport config
    <<84, 121, 112, 101, 32, 99, 111, 110, 115, 105, 115, 116, 101, 110, 99, 121>>,  \* Type consistency
    <<87, 105, 114, 101, 32, 112, 114, 111, 116, 111, 99, 111, 108, 32, 99, 111, 110, 102, 105, 103>>,  \* Wire protocol config
    <<87, 114, 105, 116, 101, 114, 32, 114, 101, 115, 111, 117, 114, 99, 101, 32, 108, 105, 109, 105, 116, 115>>  \* Writer resource limits
>>
Invalid == <<73, 110, 118, 97, 108, 105, 100>>
Policies == 1..36
PolicyName(p) == IF p \in Policies THEN PolicyNames[p] ELSE Invalid
Comma == <<44, 32>>
\* the name of each policy set (0 is the invalid one), in order; of none the invalid one
MaskName(S) ==
    IF S = {} THEN Invalid
    ELSE LET ps == SelectSeq([k \in 1..37 |-> k - 1], LAMBDA p : p \in S)
         IN  Join([k \in 1..Len(ps) |-> PolicyName(ps[k])], Comma)

ASSUME \A p, q \in Policies : p # q => PolicyNames[p] # PolicyNames[q] /\ PolicyNames[p] # Invalid
ASSUME \A c, d \in Codes : c # d => CodeNames[c + 1] # CodeNames[d + 1]

Bool(b) == IF b THEN 1 ELSE 0
CodesOk(row) ==
    LET a == row.a
        Is(w) == row.k = "ok" /\ row.r = w
    IN
    CASE row.f = "from_dds" -> Is(<<FromDds(a[1])>>)
      [] row.f = "code" -> Is(<<a[1], Bool(a[1] # Ok), <<123>> \o CodeNames[a[1] + 1] \o <<125>> >>)
      [] row.f = "code_default" -> Is(<<Ok>>)
      [] row.f = "compare" ->   \* ==, !=, <, and the first two with a plain value on either side
            LET e == Bool(a[1] = a[2])  d == Bool(a[1] # a[2])
            IN  Is(<<e, d, Bool(a[1] < a[2]), e, d, e, d>>)
      [] row.f = "copied" -> Is(<<a[2], a[1]>>)
      [] row.f = "values" -> Is(<<0, 1, 2, 3, 4, 5>>)
      [] row.f = "policy" -> Is(<<PolicyName(a[1])>>)
      [] row.f = "mask" -> Is(<<MaskName(Elements(a[1]))>>)
=============================================================================
