CONSTANTS
 Pars = {1, 2, 3}
 Caps = {1, 4, 6}
 Limits = {0, 1, 2}
 MaxRows = 2
SPECIFICATION Spec
INVARIANTS ByRule Capped Direct RunByRule CutShort OffByOne
