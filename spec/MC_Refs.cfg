CONSTANT Known <- KnownDef
SPECIFICATION Spec
INVARIANTS RoundTrip EqLaws FindLaws
CHECK_DEADLOCK FALSE
