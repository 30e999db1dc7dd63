CONSTANT Known <- KnownDef
SPECIFICATION Spec
INVARIANTS Reach Kept Merged
CHECK_DEADLOCK FALSE
