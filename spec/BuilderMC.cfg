SPECIFICATION Spec
CONSTANTS Careful = TRUE MaxItems = 3 MaxIns = 1
INVARIANTS CacheRight FieldsRight Sealed ReadBack NonceKept
CHECK_DEADLOCK FALSE
