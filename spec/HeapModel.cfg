SPECIFICATION Spec
CONSTANTS N = 5
 K = 3
 ARITY = 2
INVARIANTS HeapOrder Positions Represents PopsMinimum
