CONSTANTS MinLen = 2
          MaxLen = 6
          K = 2
SPECIFICATION Spec
INVARIANTS Agree Alternate Duality Reversal NotAtEnds
