SPECIFICATION Spec
INVARIANTS AnswersExact Installed
CONSTANTS
  Hops = 2
  Par = 2
  Weights = {1, 2}
  NU = 1
  NQ = 1
  Locked = FALSE
  OwnWeights = TRUE
