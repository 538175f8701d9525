------------------------------ MODULE StdinTrace ------------------------------
EXTENDS Stdin, Json, IOUtils, TLC
VARIABLES s, n
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- NInits, Threads <- NThreads, CallS <- NCall,
                   StepS <- NStep, RetS <- NRet, ObsS <- NObs, QuietS <- NQuiet
=============================================================================
