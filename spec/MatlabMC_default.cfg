CONSTANTS Rule = "default"
 Par = 0
 Cap = 3
 Limit = 3
 Vals <- V
 Exts = {2, 3, 5}
 Zers = {1, 3}
 Depth = 3
SPECIFICATION MSpec
CONSTRAINT Bound
INVARIANTS MComplete MLimited MCounts MRounds MOnlyLastZero
