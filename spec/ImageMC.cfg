CONSTANTS
 Vals = {0, 1, 2}
 Limits = {0, 1, 2}
 MaxRows = 3
 MaxRounds = 2
 Scales = {1, 3}
 Offsets = {0, 5}
SPECIFICATION Spec
INVARIANTS Complete Bounded
