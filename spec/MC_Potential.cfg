SPECIFICATION Spec
CONSTANT Fails <- PotentialFails
CHECK_DEADLOCK FALSE
