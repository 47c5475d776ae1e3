SPECIFICATION Spec
CONSTANT N = 4
INVARIANTS InG Partial SimplePath MatrixTree
CHECK_DEADLOCK FALSE
