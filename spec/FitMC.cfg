INIT MCInit
NEXT MCNext
CONSTANT Depth = 2
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS AtRest

