SPECIFICATION Spec
CONSTANTS Nums = {1, 2} Labels = {1, 2} Thrs = {3} Depth = 2 Indent = FALSE
INVARIANT Clear Arrives Whole

CHECK_DEADLOCK FALSE
