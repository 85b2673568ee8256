SPECIFICATION Spec
CONSTANTS Len0 = 0
 MaxLen = 8
 B1 = 2
 B2 = 3
 DropLast = TRUE
 DropMiddle = FALSE
INVARIANTS Honest NoCryWolf
PROPERTY Answers
