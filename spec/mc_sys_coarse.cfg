SPECIFICATION MCSpec
CONSTANTS Handles = {1}
 Its = {11}
 Keys = {0, 1, 2}
 Values = {0, 1}
 MaxId = 4
 MaxLen = 4
 Keyed = TRUE
 Width = 2
VIEW MCView
INVARIANTS Linear Borrows SortedInv BulkInv CoarseInv
PROPERTY Ownership
CHECK_DEADLOCK FALSE
