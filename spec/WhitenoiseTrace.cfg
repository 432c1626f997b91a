CONSTANT Bad <- WBad
SPECIFICATION JSpec
POSTCONDITION JDone
