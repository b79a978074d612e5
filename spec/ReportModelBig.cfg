SPECIFICATION Spec
CONSTANT DEPTH = 10
CONSTANT PRINT = FALSE
INVARIANT Consistent
INVARIANT HandsOver
INVARIANT Empty
