SPECIFICATION Spec
CONSTANTS M = 4
 N = 9
VIEW FullView
CONSTRAINT Bound
PROPERTY PrimSteps
CHECK_DEADLOCK FALSE
