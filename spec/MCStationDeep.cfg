SPECIFICATION Spec
CONSTANTS
  Alphabet = {65, 98, 49, 45}
  MaxLen = 9
INVARIANTS Same CanonicalIsFixed Safe Reported
CHECK_DEADLOCK FALSE
