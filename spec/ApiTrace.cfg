CONSTANT Chunks = 8
SPECIFICATION Spec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
