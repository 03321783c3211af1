SPECIFICATION MCSpec
CONSTANTS
  CR <- MCCR
  Meaning <- MCMeaning
  MaxCalls = 0
  MaxSessions = 2
  MaxLines = 6
  MaxData = 2
  Cancels = FALSE
  Lines = {"OK", "DISC", "CONN"}
INVARIANTS Rests C01 C03C04 C05 C08 C09Down C10 C11
PROPERTIES C11Order C11Quiet C09 C09Data
CHECK_DEADLOCK FALSE
