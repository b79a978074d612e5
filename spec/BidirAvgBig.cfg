SPECIFICATION Spec
CONSTANTS N = 4
 WS = {1, 4, 2147483647}
 MODE = "avg"
 LB = 2
 CAPS = {2147483647}
 MAXA = 5
INVARIANTS Exact UpperBound

