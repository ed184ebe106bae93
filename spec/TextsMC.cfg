SPECIFICATION Spec
CONSTANTS MaxLen = 7
INVARIANTS Streams NoDelims Skips Restores Chars ZipLaws
CHECK_DEADLOCK FALSE
