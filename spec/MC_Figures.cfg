SPECIFICATION Spec
CONSTANT Fails <- FigFails
CHECK_DEADLOCK FALSE
