CONSTANTS Rule = "fixe"
 Par = 2
 MaxIter = 5
 MaxImf = 2
 Vals <- V
 Exts = {2, 3, 5}
 Zers = {1, 3}
 Depth = 2
SPECIFICATION ESpec
CONSTRAINT Bound
INVARIANTS Complete Limited Sifting
PROPERTIES TrendEnds NoModeAfterEnd
