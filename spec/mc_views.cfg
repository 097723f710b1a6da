SPECIFICATION Spec
CONSTANTS M = 4
 N = 8
VIEW ShapeView
CONSTRAINT Bound
INVARIANTS SearchCorrect HeightLogarithmic Iterators Visits Clones ValidatorAccepts Dots
CHECK_DEADLOCK FALSE
