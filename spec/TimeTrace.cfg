CONSTANT Bad <- TimeBad
SPECIFICATION JSpec
POSTCONDITION JDone
