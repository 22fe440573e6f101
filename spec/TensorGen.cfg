SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Profile = "T07"
