SPECIFICATION Spec
CONSTANTS N = 4
 MAXA = 5
 WS = {0, 2, 2147483647}
INVARIANTS LabelSetting Exact Tree Monotone
