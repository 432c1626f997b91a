CONSTANT Bad <- CeeRunBad
SPECIFICATION JSpec
POSTCONDITION JDone
