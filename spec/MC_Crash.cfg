SPECIFICATION Spec
CONSTANT Fails <- CrashFails
CHECK_DEADLOCK FALSE
