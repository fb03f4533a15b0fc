SPECIFICATION Spec
CONSTANT None = 99
CHECK_DEADLOCK FALSE
