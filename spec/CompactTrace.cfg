CONSTANT Bad <- CBad
SPECIFICATION JSpec
POSTCONDITION JDone
