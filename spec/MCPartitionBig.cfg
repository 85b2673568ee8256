SPECIFICATION Spec
CONSTANTS MaxRows = 4
 Cols = 2
 Vals = {1, 2, 3}
INVARIANTS Exists AddUp Tight Sides
