SPECIFICATION Spec
CONSTANT Focus = "text"
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
