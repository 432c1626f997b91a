CONSTANT Bad <- StopBad
SPECIFICATION JSpec
POSTCONDITION JDone
