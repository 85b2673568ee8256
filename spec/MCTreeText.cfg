SPECIFICATION Spec
CONSTANTS Nums = {1, 2} Labels = {1, 2} Thrs = {3} Depth = 2 Indent = TRUE
INVARIANT Clear Arrives Whole
PROPERTY Ends
CHECK_DEADLOCK FALSE
