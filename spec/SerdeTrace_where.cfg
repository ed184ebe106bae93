SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Where = TRUE
