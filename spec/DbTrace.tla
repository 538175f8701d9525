------------------------------- MODULE DbTrace -------------------------------
EXTENDS Db, Json, IOUtils
VARIABLES s, n
L == INSTANCE Lin WITH ObjInits <- DbInits, Apply <- DbApply, Seen <- DbSeen, ObjQuiet <- DbObjQuiet
\* a write may wait for the iterators even if it would change nothing
DbQuiet(x) == \A t \in DOMAIN x.th : /\ x.th[t].ph # "done"
                                     /\ \/ L!LStep(x, t) = {}
                                        \/ x.th[t].op \in Writes /\ Frozen(x.o)
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- L!LInits, Threads <- L!LThreads, CallS <- L!LCall,
                   StepS <- L!LStep, RetS <- L!LRet, ObsS <- L!LObs, QuietS <- DbQuiet
=============================================================================
