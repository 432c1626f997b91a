CONSTANT Bad <- ImageBad
SPECIFICATION JSpec
POSTCONDITION JDone
