----------------------------- MODULE TextTable -----------------------------
EXTENDS Text, Json, IOUtils
VARIABLE i
TableRows == JsonDeserialize(IOEnv.ROWS)
INSTANCE Table WITH Rows <- TableRows, Ok <- TextOk
=============================================================================
