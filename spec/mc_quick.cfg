SPECIFICATION Spec
CONSTANTS M = 4
 N = 10
VIEW FullView
CONSTRAINT Bound
INVARIANTS ContentPreserved NoLeak Balanced AddressTracked OffByOne Navigation
PROPERTY RefinesSeq
CHECK_DEADLOCK FALSE
