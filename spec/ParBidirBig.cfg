SPECIFICATION Spec
CONSTANTS N = 5
 WS = {1,2,3}
 EDGES = {{0,1},{1,2},{2,3},{3,4},{0,4},{1,3}}
 FENCE = TRUE
 CAPS = {1000,6,9}
INVARIANTS Exact Sound

