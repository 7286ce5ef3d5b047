SPECIFICATION Spec
CONSTANTS Careful = TRUE MaxItems = 4 MaxIns = 2
INVARIANTS CacheRight FieldsRight Sealed ReadBack NonceKept
CHECK_DEADLOCK FALSE
