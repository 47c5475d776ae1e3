SPECIFICATION Spec
CONSTANT Fails <- BlessFails
CHECK_DEADLOCK FALSE
