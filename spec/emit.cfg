SPECIFICATION Spec
CONSTANTS M = 4
 N = 8
VIEW ShapeView
CONSTRAINT Bound
CONSTRAINT Emit
CHECK_DEADLOCK FALSE
