----------------------------- MODULE MsgsTable -----------------------------
EXTENDS Msgs, Json, IOUtils
VARIABLE i
TableRows == JsonDeserialize(IOEnv.ROWS)
INSTANCE Table WITH Rows <- TableRows, Ok <- MsgsOk
=============================================================================
