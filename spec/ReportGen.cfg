SPECIFICATION Spec
CONSTANT DEPTH = 6
CONSTANT PRINT = TRUE
INVARIANT Consistent
INVARIANT HandsOver
INVARIANT Empty
