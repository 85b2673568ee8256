SPECIFICATION Spec
CONSTANTS
  Bytes = {0, 1, 2}
  Len0 = 4
  Careful = TRUE
INVARIANT NeverMisread
