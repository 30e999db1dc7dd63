CONSTANT Known <- KnownDef
SPECIFICATION Spec
CHECK_DEADLOCK FALSE
