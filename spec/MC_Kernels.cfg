SPECIFICATION Spec
CONSTANT Fails <- KFails
CHECK_DEADLOCK FALSE
