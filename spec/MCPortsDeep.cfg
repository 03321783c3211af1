SPECIFICATION Spec
CONSTANTS
  Host0 = "a"
  Port0 = 2
  MaxPort = 4
  PortSet = {2, 3, 4}
  Hosts = {"a", "b"}
  MaxSets = 3
  How <- MCHow
INVARIANTS C23 Refused Same
PROPERTIES Order Ends
CHECK_DEADLOCK FALSE
