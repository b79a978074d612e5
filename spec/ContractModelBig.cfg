SPECIFICATION Spec
CONSTANTS N = 4
          Weights = {1}
INVARIANT OverlayExact HierarchyExact
CHECK_DEADLOCK FALSE
