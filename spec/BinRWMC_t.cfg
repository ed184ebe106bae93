CONSTANTS MaxLen = 8
 MaxOps = 3
SPECIFICATION Spec
INVARIANTS Inside Sticky FailKeeps OnlyWindow Canonical PrefixFree
CHECK_DEADLOCK FALSE
