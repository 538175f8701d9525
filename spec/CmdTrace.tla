------------------------------ MODULE CmdTrace ------------------------------
EXTENDS Cmd, Json, IOUtils, TLC
VARIABLES s, n
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- CInits, Threads <- CThreads, CallS <- CCall,
                   StepS <- CStep, RetS <- CRet, ObsS <- CObs, QuietS <- CQuiet
=============================================================================
