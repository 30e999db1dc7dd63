------------------------------- MODULE Export -------------------------------
(* Writes the built-in schemas as JSON (for the generators) to EXPORT_FILE  *)
(* and the small schemas of the models to EXPORT_FILE2.                     *)
EXTENDS Small, Json, IOUtils
KnownDef == {}
ASSUME JsonSerialize(IOEnv.EXPORT_FILE, BuiltinS)
ASSUME JsonSerialize(IOEnv.EXPORT_FILE2, SmallS)
=============================================================================
