CONSTANTS H = 4
 Y = 2
 NK = 4
SPECIFICATION Spec
INVARIANT Inv
