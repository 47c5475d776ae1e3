SPECIFICATION Spec
CONSTANT N = 3
CONSTANT Entries <- EntriesDef
INVARIANT Between FullIsExact Monotone
CHECK_DEADLOCK FALSE
