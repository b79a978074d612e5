CONSTANTS P = 4 V = 1 Mode = "merge" Strict = TRUE
SPECIFICATION Spec
INVARIANTS Algebra Bounds Record
