SPECIFICATION Spec
CONSTANTS
  Cap = 1
  MaxCmds = 3
  MaxRadio = 2
  Cmds = {"T", "R"}
  RadioBytes = {"x", ";"}
INVARIANTS C12 C13 Kept Full Responses Rests
PROPERTIES Refines
CHECK_DEADLOCK FALSE
