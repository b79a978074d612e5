SPECIFICATION Spec
CONSTANTS N = 3
 WS = {0, 1, 3, 2147483647}
 MODE = "zero"
 LB = 1
 CAPS = {2147483647, 2, 4}
 MAXA = 6
INVARIANTS Exact UpperBound
PROPERTY Terminates
