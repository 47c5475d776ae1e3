SPECIFICATION Spec
CONSTANT Fails <- OPEFails
CHECK_DEADLOCK FALSE
