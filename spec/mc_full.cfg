SPECIFICATION FSpec
CONSTANTS M = 4
 N = 10
VIEW ShapeView
CONSTRAINT Bound
INVARIANTS ContentPreserved NoLeak Balanced AddressTracked Apart
PROPERTY Accounted
CHECK_DEADLOCK FALSE
