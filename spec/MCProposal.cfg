SPECIFICATION Spec
CONSTANTS
  Senders = {"A", "KC1GSL"}
  Boxes = {"B", "W1AW.MA.USA.NOAM"}
  Ids = {"7", "ABCDEFGH1234"}
  Sizes = {"0", "65536", "999999", "00"}
  MaxAnswers = 3
INVARIANTS Exact Partial
CHECK_DEADLOCK FALSE
