SPECIFICATION Spec
CONSTANTS MaxLines = 2
 MaxWidth = 3
 Careless = FALSE
INVARIANTS Right Says1

