INIT MCInit
NEXT MCNext
CONSTANT Depth = 7
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS Within FirstFills

