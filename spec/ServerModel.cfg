SPECIFICATION Spec
INVARIANTS AnswersExact Installed
CONSTANTS
  Hops = 1
  Par = 2
  Weights = {1, 2}
  NU = 2
  NQ = 2
  Locked = TRUE
  OwnWeights = TRUE
