CONSTANTS MinLen = 2
          MaxLen = 7
          K = 1
SPECIFICATION Spec
INVARIANTS Agree Alternate Duality Reversal NotAtEnds
