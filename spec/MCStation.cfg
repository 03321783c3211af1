SPECIFICATION Spec
CONSTANTS
  Alphabet = {65, 98, 49, 45, 32}
  MaxLen = 7
INVARIANTS Same CanonicalIsFixed Safe Reported
CHECK_DEADLOCK FALSE
