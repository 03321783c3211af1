SPECIFICATION MCFair
CONSTANTS
  CR <- MCCR
  Meaning <- MCMeaning
  MaxCalls = 1
  MaxSessions = 1
  MaxLines = 3
  MaxData = 0
  Cancels = TRUE
  Lines = {"OK", "CONN", "BAD"}
PROPERTIES C01L C06L C07L C08L C09L C09W C11L
CHECK_DEADLOCK FALSE
