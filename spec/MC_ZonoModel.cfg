SPECIFICATION Spec
INVARIANTS OneTile ChordTiled Weights Balance LawIsOne
CHECK_DEADLOCK FALSE
