SPECIFICATION Spec
CONSTANTS D = 5
 MAXT = 4
INVARIANTS LiveFifo PessFifo ReturnsLive ReturnsPess NeverBelow LiveBetween
