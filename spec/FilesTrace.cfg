SPECIFICATION Spec
VIEW View
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
