SPECIFICATION Spec
CONSTANTS SkipFailed = FALSE MaxLen = 3
INVARIANTS BuiltOK InStep FromPlace GivesBack PastEnd
