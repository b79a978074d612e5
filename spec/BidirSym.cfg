SPECIFICATION Spec
CONSTANTS N = 3
 WS = {0, 1, 3, 2147483647}
 MODE = "sym"
 LB = 2
 CAPS = {2147483647}
 MAXA = 6
INVARIANTS Exact UpperBound
PROPERTY Terminates
