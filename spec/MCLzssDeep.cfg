SPECIFICATION Spec
CONSTANTS
  N = 5
  Shortest = 2
  Longest = 6
  Chars = {0, 1}
  Space = 0
  MaxText = 15
  Past = 2
INVARIANTS Same Window Sendable
CHECK_DEADLOCK FALSE
