----------------------------- MODULE QueueTrace -----------------------------
EXTENDS Queue, Json, IOUtils
VARIABLES s, n
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- QInits, Threads <- QThreads, CallS <- QCall,
                   StepS <- QStep, RetS <- QRet, ObsS <- QObs, QuietS <- QQuiet
=============================================================================
