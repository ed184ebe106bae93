SPECIFICATION Spec
CONSTANT Whole = TRUE
INVARIANTS LeadsThere
