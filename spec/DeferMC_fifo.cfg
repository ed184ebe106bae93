SPECIFICATION Spec
CONSTANTS MaxEv = 9
  MaxIds = 3
  Mutant = "fifo"
INVARIANTS Once Reverse Nested AllGone
CHECK_DEADLOCK FALSE
