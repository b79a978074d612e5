CONSTANTS P = 3 V = 3 Mode = "algebra" Strict = TRUE
SPECIFICATION Spec
INVARIANTS Algebra Bounds Record
