CONSTANT Bad <- SplBad
SPECIFICATION JSpec
POSTCONDITION JDone
