----------------------------- MODULE ArithTable -----------------------------
EXTENDS Arith, Json, IOUtils
VARIABLE i
TableRows == JsonDeserialize(IOEnv.ROWS)
INSTANCE Table WITH Rows <- TableRows, Ok <- ArithOk
=============================================================================
