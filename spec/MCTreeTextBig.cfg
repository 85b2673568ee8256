SPECIFICATION Spec
CONSTANTS Nums = {1, 2, 3} Labels = {1, 2, 3} Thrs = {3, 4} Depth = 2 Indent = TRUE
INVARIANT Clear Arrives Whole

CHECK_DEADLOCK FALSE
