------------------------------ MODULE OwnerTrace ------------------------------
EXTENDS Owner, Json, IOUtils
VARIABLES s, n
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- OInits, Threads <- OThreads, CallS <- OCall,
                   StepS <- OStep, RetS <- ORet, ObsS <- OObs, QuietS <- OQuiet
=============================================================================
