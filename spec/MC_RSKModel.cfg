SPECIFICATION Spec
CONSTANTS
 N = 5
 OnlyPerms = TRUE
INVARIANTS SameShape Tableaux First Recursion Symmetric
CHECK_DEADLOCK FALSE
