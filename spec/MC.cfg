CONSTANTS
  Setup <- SetupDef
  Alph <- AlphDef
  Probe <- ProbeDef
SPECIFICATION Spec
CONSTRAINT Bound
VIEW View
INVARIANTS Refines HMachineOK
PROPERTIES Always Stated
CHECK_DEADLOCK FALSE
