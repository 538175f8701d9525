----------------------------- MODULE EnumsTable -----------------------------
EXTENDS Enums, Json, IOUtils
VARIABLE i
TableRows == JsonDeserialize(IOEnv.ROWS)
INSTANCE Table WITH Rows <- TableRows, Ok <- EnumsOk
=============================================================================
