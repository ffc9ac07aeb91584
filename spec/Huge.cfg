CONSTANT Chunks = 1
SPECIFICATION Spec
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
