SPECIFICATION Spec
CONSTANT DEPTH = 7
CONSTANT PRINT = TRUE
INVARIANT Consistent
INVARIANT HandsOver
INVARIANT Empty
