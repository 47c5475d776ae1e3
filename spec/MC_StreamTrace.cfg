SPECIFICATION TSpec
CONSTANT Depth = 0
CHECK_DEADLOCK FALSE
