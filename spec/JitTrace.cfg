CONSTANT Bad <- JitBad
SPECIFICATION JSpec
POSTCONDITION JDone
