----------------------------- MODULE FilesTable -----------------------------
EXTENDS Files, Json, IOUtils
VARIABLE i
TableRows == JsonDeserialize(IOEnv.ROWS)
INSTANCE Table WITH Rows <- TableRows, Ok <- FilesOk
=============================================================================
