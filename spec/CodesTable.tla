----------------------------- MODULE CodesTable -----------------------------
EXTENDS Codes, Json, IOUtils
VARIABLE i
TableRows == JsonDeserialize(IOEnv.ROWS)
INSTANCE Table WITH Rows <- TableRows, Ok <- CodesOk
=============================================================================
