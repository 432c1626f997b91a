CONSTANT Bad <- InsBad
SPECIFICATION JSpec
POSTCONDITION JDone
