CONSTANT Bad <- CeeBad
SPECIFICATION JSpec
POSTCONDITION JDone
