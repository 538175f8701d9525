-------------------------------- MODULE Trie --------------------------------
(* Validation of recorded histories against a specification given as          *)
(* functions of its state record: a batch of histories of the real code is   *)
(* merged into a prefix tree, and the walk below explores every way in which  *)
(* the specification can produce them.  Events of a history:                  *)
(*   I kind init..    creation of the object                                  *)
(*   C t op args..    thread t calls op        R t tag values..   it returns  *)
(*   O name values..  observation made by the environment (a callback ran..)  *)
(*   E                end: nothing else happens, blocked threads stay blocked *)
(* What happens inside the calls is not recorded: the specification's own     *)
(* internal steps are inferred.  A history is accepted if its E is reached.   *)
EXTENDS Integers, Sequences, TLC

CONSTANTS Nodes,              \* the tree: sequence of [e, t, o, a, k], k the children; node 1 is the root
          Diag,               \* print every node reached
          Inits(_, _),        \* Inits(kind, init): set of initial states
          Threads(_),         \* Threads(s): everything that can take steps
          CallS(_, _, _, _),  \* CallS(s, t, op, args): set of states after the call
          StepS(_, _),        \* StepS(s, t): set of states after an internal step of t
          RetS(_, _, _, _),   \* RetS(s, t, tag, values): set of states after that return (empty: not allowed)
          ObsS(_, _, _),      \* ObsS(s, name, values): set of states after that observation
          QuietS(_)           \* QuietS(s): is it right that nothing else ever happens

VARIABLES s, n

None == [none |-> TRUE]

TInit == n = 1 /\ s = None

TNext ==
  \/ /\ s # None
     /\ \E t \in Threads(s) : s' \in StepS(s, t)
     /\ n' = n
  \/ \E i \in 1..Len(Nodes[n].k) :
        LET k == Nodes[n].k[i]
            e == Nodes[k]
        IN /\ n' = k
           /\ CASE e.e = "I" -> s' \in Inits(e.o, e.a)
                [] e.e = "C" -> s' \in CallS(s, e.t, e.o, e.a)
                [] e.e = "R" -> s' \in RetS(s, e.t, e.o, e.a)
                [] e.e = "O" -> s' \in ObsS(s, e.o, e.a)
                [] e.e = "E" -> QuietS(s) /\ s' = s
           /\ (e.e = "E" => PrintT(<<"ACC", k>>))
           /\ (Diag => PrintT(<<"AT", k>>))
=============================================================================
