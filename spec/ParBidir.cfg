SPECIFICATION Spec
CONSTANTS N = 5
 WS = {1,5}
 EDGES = {{0,1},{1,2},{2,3},{3,4},{0,4}}
 FENCE = TRUE
 CAPS = {1000,6}
INVARIANTS Exact Sound
PROPERTY Terminates
