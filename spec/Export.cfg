CONSTANT Known <- KnownDef
