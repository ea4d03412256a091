CONSTANTS
  Alpha = {97, 32, 58}
  MaxLen = 2
  OldParser = FALSE
SPECIFICATION Spec
INVARIANTS RoundTrip OwnReading
CHECK_DEADLOCK FALSE
