SPECIFICATION Spec
CONSTANT Rebind = FALSE
INVARIANTS DocumentsKept DenoteLatest
