SPECIFICATION Spec
CONSTANTS N = 3
          Weights = {0, 1, 2}
INVARIANT OverlayExact HierarchyExact
CHECK_DEADLOCK FALSE
