SPECIFICATION Spec
CONSTANT Whole = FALSE
INVARIANTS LeadsThere
