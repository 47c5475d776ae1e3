SPECIFICATION Spec
CONSTANT Fails <- BlockFails
CHECK_DEADLOCK FALSE
