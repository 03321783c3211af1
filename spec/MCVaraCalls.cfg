SPECIFICATION MCSpec
CONSTANTS
  CR <- MCCR
  Meaning <- MCMeaning
  MaxCalls = 2
  MaxSessions = 0
  MaxLines = 3
  MaxData = 0
  Cancels = TRUE
  Lines = {"OK", "NO", "ON", "BAD"}
INVARIANTS Rests C01 C03C04 C05 C08 C09Down C10 C11
PROPERTIES C11Order C11Quiet C09 C09Data
CHECK_DEADLOCK FALSE
