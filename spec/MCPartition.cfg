SPECIFICATION Spec
CONSTANTS MaxRows = 3
 Cols = 2
 Vals = {1, 2, 3}
INVARIANTS Exists AddUp Tight Sides
