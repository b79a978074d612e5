SPECIFICATION Spec
CONSTANTS N = 6
 K = 3
 ARITY = 2
INVARIANTS HeapOrder Positions Represents PopsMinimum
