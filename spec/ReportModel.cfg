SPECIFICATION Spec
CONSTANT DEPTH = 7
CONSTANT PRINT = FALSE
INVARIANT Consistent
INVARIANT HandsOver
INVARIANT Empty
