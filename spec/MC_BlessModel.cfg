SPECIFICATION Spec
CONSTANT N = 3
CONSTANT Entries <- EntriesQuick
INVARIANT Between FullIsExact Monotone
CHECK_DEADLOCK FALSE
