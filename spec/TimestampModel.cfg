SPECIFICATION Spec
CONSTANTS N = 2
 M = 4
 X = {0, 1, 2}
INVARIANT Refines
