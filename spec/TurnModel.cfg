SPECIFICATION Spec
CONSTANTS N = 2
 WS = {0, 1}
 TC = {0, 1, 2147483647}
 NA = 2
INVARIANTS WalkAtLeastLine LineAtLeastNode
