SPECIFICATION Spec
CONSTANT Fails <- ZonotopeFails
CHECK_DEADLOCK FALSE
