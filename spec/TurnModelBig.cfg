SPECIFICATION Spec
CONSTANTS N = 2
 WS = {0, 2}
 TC = {0, 2147483647}
 NA = 3
INVARIANTS WalkAtLeastLine LineAtLeastNode
