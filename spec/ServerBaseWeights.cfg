SPECIFICATION Spec
INVARIANTS AnswersExact Installed
CONSTANTS
  Hops = 1
  Par = 2
  Weights = {1, 2}
  NU = 1
  NQ = 1
  Locked = TRUE
  OwnWeights = FALSE
