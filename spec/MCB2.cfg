SPECIFICATION Spec
CONSTANTS
  ByteSet = {0, 4, 255}
  MaxData = 3
  Titles = {"", "A b"}
  Offsets = {"0", "65536"}
  Noise = 1
INVARIANTS Delivered Patient NothingWrong
CHECK_DEADLOCK FALSE
