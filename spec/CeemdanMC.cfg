CONSTANTS Trials = 3
 MaxModes = 3
 Limit = 3
 HardLimit = 3
 Vals <- V
SPECIFICATION CSpec
INVARIANTS Complete Remainder Limited RightNoise AllTrials
PROPERTY Terminates
