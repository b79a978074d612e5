SPECIFICATION Spec
CONSTANTS D = 6
 MAXT = 4
INVARIANTS LiveFifo PessFifo ReturnsLive ReturnsPess NeverBelow LiveBetween
