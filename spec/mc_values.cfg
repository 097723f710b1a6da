SPECIFICATION Spec
CONSTANT W = 15
INVARIANTS Reads Pairs Above
CHECK_DEADLOCK FALSE
