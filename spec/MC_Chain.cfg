SPECIFICATION Spec
CONSTANT Fails <- ChainFails
CHECK_DEADLOCK FALSE
