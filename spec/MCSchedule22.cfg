SPECIFICATION Spec
CONSTANTS NG = 2
 NP = 2
 MaxRounds = 4
 Orders = {"rev"}
INVARIANTS Monotone AllDone Emit
CHECK_DEADLOCK FALSE
