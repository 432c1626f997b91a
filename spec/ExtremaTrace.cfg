CONSTANT Bad <- ExtBad
SPECIFICATION JSpec
POSTCONDITION JDone
