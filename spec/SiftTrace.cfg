CONSTANT Bad <- SiftBad
SPECIFICATION JSpec
POSTCONDITION JDone
