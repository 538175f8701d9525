------------------------------ MODULE LogEvTrace ------------------------------
EXTENDS LogEv, Json, IOUtils
VARIABLES s, n
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- LGInits, Threads <- LGThreads, CallS <- LGCall,
                   StepS <- LGNext, RetS <- LGRet, ObsS <- LGObs, QuietS <- LGQuiet
=============================================================================
