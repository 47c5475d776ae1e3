SPECIFICATION Spec
CONSTANTS N = 3
 AVals <- SomeA
 BVals <- SomeB
 Pots <- SomePots
INVARIANTS EnergyIsJoint OncePerPass QuarticA QuarticB
CHECK_DEADLOCK FALSE
