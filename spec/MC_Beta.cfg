SPECIFICATION Spec
CONSTANT Fails <- BetaFails
CHECK_DEADLOCK FALSE
