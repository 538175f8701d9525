----------------------------- MODULE DatesTable -----------------------------
EXTENDS Dates, Json, IOUtils
VARIABLE i
TableRows == JsonDeserialize(IOEnv.ROWS)
INSTANCE Table WITH Rows <- TableRows, Ok <- DatesOk
=============================================================================
