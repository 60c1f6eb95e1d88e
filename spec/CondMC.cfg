INIT MCInit
NEXT MCNext
CONSTANT Depth = 5
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS DeadSign
PROPERTIES NoChatter RateKept
