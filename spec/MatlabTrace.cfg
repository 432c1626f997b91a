CONSTANT Bad <- MatlabBad
SPECIFICATION JSpec
POSTCONDITION JDone
