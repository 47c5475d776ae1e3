SPECIFICATION Spec
CONSTANT Fails <- CallFails
CHECK_DEADLOCK FALSE
