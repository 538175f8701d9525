------------------------------ MODULE PoolTrace ------------------------------
EXTENDS Pool, Json, IOUtils
VARIABLES s, n
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- PInits, Threads <- PThreads, CallS <- PCall,
                   StepS <- PStep, RetS <- PRet, ObsS <- PObs, QuietS <- PQuiet
=============================================================================
