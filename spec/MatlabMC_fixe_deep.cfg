CONSTANTS Rule = "fixe"
 Par = 2
 Cap = 4
 Limit = 0
 Vals <- V2
 Exts = {2, 3, 5}
 Zers = {1, 3}
 Depth = 3
SPECIFICATION MSpec
CONSTRAINT Bound
INVARIANTS MComplete MLimited MCounts MRounds MOnlyLastZero
