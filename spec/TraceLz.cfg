SPECIFICATION Spec
CONSTANTS
  NChar = 314
  MaxFreq = 32768
  Bit <- BitOf
INVARIANT Judged
CHECK_DEADLOCK FALSE
