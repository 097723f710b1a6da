----------------------------- MODULE MCOrders ------------------------------
\* Evaluates the arithmetic of `Orders' for the orders up to `Top', one at a time.
EXTENDS Orders
CONSTANT Top
VARIABLE m
Init == m = 4
Next == m < Top /\ m' = m + 1
Spec == Init /\ [][Next]_m
Arithmetic == Sound(m)
=============================================================================
