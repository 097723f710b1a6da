SPECIFICATION ForestSpec
CONSTANTS M = 4
 N = 11
VIEW ShapeView
CONSTRAINT Bound
INVARIANTS ContentPreserved NoLeak Balanced AddressTracked
CHECK_DEADLOCK FALSE
