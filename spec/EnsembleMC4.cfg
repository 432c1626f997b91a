CONSTANTS Trials = 4
 Workers = 3
 Calls = 1
 MaxModes = 3
SPECIFICATION Spec
INVARIANTS Fresh Grouped
PROPERTY Finishes
