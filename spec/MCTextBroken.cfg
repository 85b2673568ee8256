SPECIFICATION Spec
CONSTANTS MaxLines = 2
 MaxWidth = 2
 Careless = TRUE
INVARIANTS Right Says1

