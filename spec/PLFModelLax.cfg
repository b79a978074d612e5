CONSTANTS P = 3 V = 2 Mode = "merge" Strict = FALSE
SPECIFICATION Spec
INVARIANTS Algebra Bounds Record
