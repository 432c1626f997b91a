CONSTANTS Rule = "fixeh"
 Par = 2
 MaxIter = 5
 MaxImf = 3
 Vals <- V
 Exts = {2, 3, 5}
 Zers = {1, 3}
 Depth = 2
SPECIFICATION ESpec
INVARIANTS Complete Limited Sifting
PROPERTIES TrendEnds NoModeAfterEnd Terminates
