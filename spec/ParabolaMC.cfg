CONSTANTS H = 4
 D = 8
SPECIFICATION Spec
INVARIANT Inv
