SPECIFICATION Spec
INVARIANTS Meets Inside Smallest HullOK OneCell Cut Border
CHECK_DEADLOCK FALSE
