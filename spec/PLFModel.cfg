CONSTANTS P = 3 V = 2 Mode = "merge" Strict = TRUE
SPECIFICATION Spec
INVARIANTS Algebra Bounds Record
