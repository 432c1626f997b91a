CONSTANT Bad <- MirrorBad
SPECIFICATION JSpec
POSTCONDITION JDone
