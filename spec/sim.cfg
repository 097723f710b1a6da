SPECIFICATION SimSpec
CONSTANTS M = 8
 N = 1000
 Period = 100
 Every = 25
INVARIANTS ContentPreserved NoLeak Balanced AddressTracked EmitSim
CHECK_DEADLOCK FALSE
