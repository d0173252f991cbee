SPECIFICATION Spec
CONSTANT Focus = "frame"
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
