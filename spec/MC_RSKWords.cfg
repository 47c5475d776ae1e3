SPECIFICATION Spec
CONSTANTS
 N = 4
 OnlyPerms = FALSE
INVARIANTS SameShape Tableaux First Recursion Symmetric
CHECK_DEADLOCK FALSE
