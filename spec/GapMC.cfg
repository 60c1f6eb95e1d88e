INIT MCInit
NEXT MCNext
CONSTANT Depth = 3
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS Inverse

