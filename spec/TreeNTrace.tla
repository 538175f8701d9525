---------------------------- MODULE TreeNTrace ----------------------------
EXTENDS TreeN, Json, IOUtils
VARIABLES s, n
L == INSTANCE Lin WITH ObjInits <- TInits, Apply <- TApply, Seen <- TSeen, ObjQuiet <- TQuiet
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- L!LInits, Threads <- L!LThreads, CallS <- L!LCall,
                   StepS <- L!LStep, RetS <- L!LRet, ObsS <- L!LObs, QuietS <- L!LQuiet
=============================================================================
