SPECIFICATION Spec
CONSTANTS
  NChar = 5
  MaxFreq = 13
  Bit <- BitOf
INVARIANTS Trees Prefix Same Together Readable Codes Weights
CHECK_DEADLOCK FALSE
