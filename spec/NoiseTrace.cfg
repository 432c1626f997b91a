CONSTANT Bad <- NoiseBad
SPECIFICATION JSpec
POSTCONDITION JDone
