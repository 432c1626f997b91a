CONSTANTS Trials = 3
 Workers = 2
 Calls = 2
 MaxModes = 2
SPECIFICATION Spec
INVARIANTS Fresh Grouped
