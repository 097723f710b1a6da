SPECIFICATION MCSpec
CONSTANTS Handles = {1, 2}
 Its = {11, 12}
 Keys = {1}
 Values = {0, 1}
 MaxId = 2
 MaxLen = 2
 Keyed = FALSE
 Width = 1
VIEW MCView
INVARIANTS Linear Borrows SortedInv BulkInv CoarseInv
PROPERTY Ownership
CHECK_DEADLOCK FALSE
