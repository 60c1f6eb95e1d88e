INIT MCInit
NEXT MCNext
CONSTANT Depth = 6
VIEW View
ACTION_CONSTRAINT Emit
CHECK_DEADLOCK FALSE
INVARIANTS UnitOk IncOdd

