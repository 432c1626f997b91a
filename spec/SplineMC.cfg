CONSTANTS H = 3
 Y = 1
 NK = 4
SPECIFICATION Spec
INVARIANT Inv
