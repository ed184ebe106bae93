SPECIFICATION Spec
CONSTANTS MaxLen = 9
INVARIANTS Streams NoDelims Skips Restores Chars ZipLaws
CHECK_DEADLOCK FALSE
