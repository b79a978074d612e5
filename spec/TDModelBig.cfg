SPECIFICATION Spec
CONSTANTS N = 3
 D = 3
 TTS = {0, 1, 2}
 MAXA = 3
INVARIANTS LabelSetting Earliest
