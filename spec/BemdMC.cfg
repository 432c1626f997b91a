CONSTANTS
 Pars = {1, 2}
 Caps = {1, 3, 4}
 Limits = {0, 1, 2}
 MaxRows = 3
SPECIFICATION Spec
INVARIANTS ByRule Capped Direct RunByRule CutShort OffByOne
