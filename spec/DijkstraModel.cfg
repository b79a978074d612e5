SPECIFICATION Spec
CONSTANTS N = 3
 MAXA = 6
 WS = {0, 1, 3, 2147483647}
INVARIANTS LabelSetting Exact Tree Monotone
PROPERTY Terminates
