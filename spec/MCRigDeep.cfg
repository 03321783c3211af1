SPECIFICATION Spec
CONSTANTS
  Cap = 2
  MaxCmds = 4
  MaxRadio = 3
  Cmds = {"T", "R"}
  RadioBytes = {"x", ";"}
INVARIANTS C12 C13 Kept Full Responses Rests
PROPERTIES Refines
CHECK_DEADLOCK FALSE
