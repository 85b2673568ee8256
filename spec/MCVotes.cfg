SPECIFICATION Spec
CONSTANTS
 N = 4
 D = 2
 Classes = 2
INVARIANTS SameVotes SomeWinner
CHECK_DEADLOCK FALSE
