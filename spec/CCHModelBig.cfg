SPECIFICATION Spec
CONSTANTS N = 4
MAXA = 4
WEIGHTS = {0, 1, 3}
INVARIANTS FillOK RaceFree BasicExact PerfectExact Lossless
