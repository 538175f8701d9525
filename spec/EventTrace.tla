------------------------------ MODULE EventTrace ------------------------------
EXTENDS Event, Json, IOUtils
VARIABLES s, n
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- EInits, Threads <- EThreads, CallS <- ECall,
                   StepS <- EStep, RetS <- ERet, ObsS <- EObs, QuietS <- EQuiet
=============================================================================
