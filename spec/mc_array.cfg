SPECIFICATION MCSpec
CONSTANTS Handles = {1, 2}
 Its = {11, 12}
 Cap = 2
 MaxId = 4
VIEW MCView
INVARIANTS Linear Borrows Bounded
PROPERTY Ownership
CHECK_DEADLOCK FALSE
