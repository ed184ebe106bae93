SPECIFICATION Spec
CONSTANTS SkipFailed = TRUE MaxLen = 3
INVARIANTS BuiltOK InStep FromPlace GivesBack PastEnd
