------------------------------ MODULE UPoolTrace ------------------------------
EXTENDS UPool, Json, IOUtils
TrieNodes == JsonDeserialize(IOEnv.TRIE)
TrieDiag == IOEnv.DIAG = "1"
VARIABLES s, n
INSTANCE Trie WITH Nodes <- TrieNodes, Diag <- TrieDiag, Inits <- PInits, Threads <- PThreads, CallS <- PCall, StepS <- PStep,
                   RetS <- PRet, ObsS <- PObs, QuietS <- PQuiet
Spec == TInit /\ [][TNext]_<<s, n>>
=============================================================================
