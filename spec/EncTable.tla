----------------------------- MODULE EncTable -----------------------------
EXTENDS Enc, Json, IOUtils
VARIABLE i
TableRows == JsonDeserialize(IOEnv.ROWS)
INSTANCE Table WITH Rows <- TableRows, Ok <- EncOk
=============================================================================
