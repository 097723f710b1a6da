SPECIFICATION Spec
CONSTANT Top = 400
INVARIANT Arithmetic
CHECK_DEADLOCK FALSE
