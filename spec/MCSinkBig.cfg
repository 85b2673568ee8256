SPECIFICATION Spec
CONSTANTS Len0 = 0
 MaxLen = 24
 B1 = 3
 B2 = 7
 DropLast = FALSE
 DropMiddle = FALSE
INVARIANTS Honest NoCryWolf
PROPERTY Answers
