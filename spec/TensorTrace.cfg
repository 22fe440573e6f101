SPECIFICATION Spec
VIEW View
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
CONSTANTS
  CheckOps <- AllOps
  CheckWF = TRUE
  CheckFrame = TRUE
  CheckRefuse = TRUE
