SPECIFICATION SSpec
CONSTANT Depth = 4
INVARIANTS TypeOK OnlyOwnCalls
CHECK_DEADLOCK FALSE
