CONSTANT Bad <- PBad
SPECIFICATION JSpec
POSTCONDITION JDone
