CONSTANT Bad <- EnsBad
SPECIFICATION JSpec
POSTCONDITION JDone
