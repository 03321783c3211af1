SPECIFICATION Spec
CONSTANTS
  NChar = 4
  MaxFreq = 11
  Bit <- BitOf
INVARIANTS Trees Prefix Same Together Readable Codes Weights
CHECK_DEADLOCK FALSE
