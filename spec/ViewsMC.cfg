SPECIFICATION Spec
CONSTANT Rebind = TRUE
INVARIANTS DocumentsKept DenoteLatest
