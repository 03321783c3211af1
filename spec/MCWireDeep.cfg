SPECIFICATION Spec
CONSTANTS
  Ids = {"W1AW", "K2XYZ-10", "9A1AA", "W1AWK"}
  MaxList = 7
INVARIANTS IsOneLine Spaces Unique
CHECK_DEADLOCK FALSE
