------------------------------ MODULE FileWatchTrace ------------------------------
EXTENDS FileWatch, Json, IOUtils
VARIABLES s, n
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- FInits, Threads <- FThreads, CallS <- FCall,
                   StepS <- FStep, RetS <- FRet, ObsS <- FObs, QuietS <- FQuiet
=============================================================================
