SPECIFICATION Spec
INVARIANTS InSupport DetailedBalance Substochastic
PROPERTY SizeKept
CHECK_DEADLOCK FALSE
