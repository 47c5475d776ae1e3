SPECIFICATION Spec
CONSTANT Fails <- UstFails
CHECK_DEADLOCK FALSE
