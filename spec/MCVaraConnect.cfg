SPECIFICATION MCSpec
CONSTANTS
  CR <- MCCR
  Meaning <- MCMeaning
  MaxCalls = 0
  MaxSessions = 2
  MaxLines = 4
  MaxData = 0
  Cancels = FALSE
  Lines = {"OK", "NO", "DISC", "CONN"}
INVARIANTS Rests C01 C03C04 C05 C08 C09Down C10 C11
PROPERTIES C11Order C11Quiet C09 C09Data
CHECK_DEADLOCK FALSE
