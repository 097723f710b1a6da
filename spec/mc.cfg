SPECIFICATION Spec
CONSTANTS M = 4
 N = 14
VIEW ShapeView
CONSTRAINT Bound
INVARIANTS ContentPreserved NoLeak Balanced AddressTracked OffByOne Navigation
PROPERTY RefinesSeq
CHECK_DEADLOCK FALSE
