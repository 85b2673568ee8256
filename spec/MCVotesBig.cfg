SPECIFICATION Spec
CONSTANTS
 N = 5
 D = 3
 Classes = 3
INVARIANTS SameVotes SomeWinner
CHECK_DEADLOCK FALSE
