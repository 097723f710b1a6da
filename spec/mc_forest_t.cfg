SPECIFICATION ForestSpec
CONSTANTS M = 5
 N = 18
VIEW ShapeView
CONSTRAINT Bound
INVARIANTS ContentPreserved NoLeak Balanced AddressTracked
CHECK_DEADLOCK FALSE
