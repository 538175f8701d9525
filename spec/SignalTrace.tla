------------------------------ MODULE SignalTrace ------------------------------
EXTENDS Signal, Json, IOUtils
VARIABLES s, n
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- SInits, Threads <- SThreads, CallS <- SCall,
                   StepS <- SStep, RetS <- SRet, ObsS <- SObs, QuietS <- SQuiet
=============================================================================
