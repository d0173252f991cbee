SPECIFICATION Spec
POSTCONDITION AllRead
CHECK_DEADLOCK FALSE
