INIT TInit
NEXT TNext
CHECK_DEADLOCK FALSE
ALIAS Where
INVARIANTS Conforms ParentsFirst FloatOnlyAtRoot WithinCapacity SlotsTile RigidPoses OwnAxisStays
