CONSTANT Known <- KnownDef
SPECIFICATION Spec
INVARIANTS Laws
CHECK_DEADLOCK FALSE
