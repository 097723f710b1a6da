SPECIFICATION Spec
CONSTANTS M = 5
 N = 12
VIEW FullView
CONSTRAINT Bound
PROPERTY PrimSteps
CHECK_DEADLOCK FALSE
