SPECIFICATION Spec
CONSTANT Fails <- CombinFails
CHECK_DEADLOCK FALSE
