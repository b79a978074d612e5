SPECIFICATION Spec
CONSTANTS D = 4
 K = 2
 MAXU = 6
INVARIANTS Covered Shrinking
