SPECIFICATION Spec
CONSTANT DEPTH = 5
