CONSTANTS P = 4 V = 3 Mode = "algebra" Strict = TRUE
SPECIFICATION Spec
INVARIANTS Algebra Bounds Record
