SPECIFICATION Spec
VIEW View
INVARIANT SpecInv
CHECK_DEADLOCK FALSE
