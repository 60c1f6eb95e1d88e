INIT MCInit
NEXT MCNext
CONSTANT Depth = 1
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE

