SPECIFICATION Spec
CONSTANTS
  Vary = 2
  Show = FALSE
INVARIANTS C24Refused C24Asked C24OneLine C24Radio Agree
PROPERTIES Decides
CHECK_DEADLOCK FALSE
