SPECIFICATION Spec
CONSTANT DEPTH = 4
