------------------------------ MODULE WaitTrace ------------------------------
EXTENDS Wait, Json, IOUtils
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
VARIABLES s, n
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- WInits, Threads <- WThreads, CallS <- WCall, StepS <- WStep,
                   RetS <- WRet, ObsS <- WObs, QuietS <- WQuiet
Spec == TInit /\ [][TNext]_<<s, n>>
=============================================================================
