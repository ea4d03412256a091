CONSTANTS
  Alpha = {48, 53, 43, 45, 46, 101, 97}
  MaxLen = 6
SPECIFICATION Spec
INVARIANTS Agree SplitAgree
CHECK_DEADLOCK FALSE
