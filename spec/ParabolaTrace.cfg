CONSTANT Bad <- ParBad
SPECIFICATION JSpec
POSTCONDITION JDone
