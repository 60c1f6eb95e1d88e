INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
ALIAS Where
INVARIANTS Conforms Frames Crosses Inertial Momenta
