----------------------------- MODULE PyWaitTrace -----------------------------
EXTENDS PyWait, Json, IOUtils
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
VARIABLES s, n
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- WInits, Threads <- WThreads, CallS <- WCall, StepS <- YStep,
                   RetS <- WRet, ObsS <- WObs, QuietS <- YQuiet
=============================================================================
