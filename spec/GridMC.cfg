INIT MCInit
NEXT MCNext
CONSTANT Depth = 4
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS OneCell
PROPERTIES OnlyThatCell
