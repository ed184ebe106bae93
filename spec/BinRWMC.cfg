CONSTANTS MaxLen = 6
 MaxOps = 2
SPECIFICATION Spec
INVARIANTS Inside Sticky FailKeeps OnlyWindow Canonical PrefixFree
CHECK_DEADLOCK FALSE
