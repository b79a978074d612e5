SPECIFICATION Spec
CONSTANTS N = 3
 M = 5
 X = {0, 1, 2}
INVARIANT Refines
