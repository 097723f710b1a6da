SPECIFICATION Spec
CONSTANTS T = {1, 2, 3}
 Home = 1
INVARIANTS StayHome NotShared OneWriter
CHECK_DEADLOCK FALSE
