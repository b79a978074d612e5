SPECIFICATION Spec
CONSTANTS N = 4
MAXA = 3
WEIGHTS = {1, 3}
INVARIANTS FillOK RaceFree BasicExact PerfectExact Lossless
