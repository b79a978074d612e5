SPECIFICATION Spec
CONSTANTS D = 4
 K = 3
 MAXU = 5
INVARIANTS Covered Shrinking
