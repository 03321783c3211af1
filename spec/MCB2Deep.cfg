SPECIFICATION Spec
CONSTANTS
  ByteSet = {0, 4, 255}
  MaxData = 4
  Titles = {"A b"}
  Offsets = {"65536"}
  Noise = 1
INVARIANTS Delivered Patient NothingWrong
CHECK_DEADLOCK FALSE
