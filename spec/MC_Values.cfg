CONSTANT Known <- KnownDef
SPECIFICATION Spec
INVARIANTS Clean Again Mirror DtMirror Pointwise Marked Single
CHECK_DEADLOCK FALSE
