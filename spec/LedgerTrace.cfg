CONSTANT Bad <- LedgerBad
SPECIFICATION JSpec
POSTCONDITION JDone
