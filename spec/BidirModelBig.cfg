SPECIFICATION Spec
CONSTANTS N = 4
 WS = {1, 3, 2147483647}
 MODE = "zero"
 LB = 1
 CAPS = {2147483647, 3}
 MAXA = 5
INVARIANTS Exact UpperBound

