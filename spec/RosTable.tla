----------------------------- MODULE RosTable -----------------------------
EXTENDS Ros, Json, IOUtils
VARIABLE i
TableRows == JsonDeserialize(IOEnv.ROWS)
INSTANCE Table WITH Rows <- TableRows, Ok <- RosOk
=============================================================================
