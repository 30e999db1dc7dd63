CONSTANT Known <- KnownDef
SPECIFICATION Spec
INVARIANTS Distinct Local Written Removed Refusal
CHECK_DEADLOCK FALSE
