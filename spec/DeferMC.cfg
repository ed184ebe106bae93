SPECIFICATION Spec
CONSTANTS MaxEv = 9
  MaxIds = 3
  Mutant = "none"
INVARIANTS Once Reverse Nested AllGone
CHECK_DEADLOCK FALSE
