CONSTANTS Trials = 2
 MaxModes = 4
 Limit = 0
 HardLimit = 4
 Vals <- V
SPECIFICATION CSpec
INVARIANTS Complete Remainder Limited RightNoise AllTrials
PROPERTY Terminates
