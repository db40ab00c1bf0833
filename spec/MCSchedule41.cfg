SPECIFICATION Spec
CONSTANTS NG = 4
 NP = 1
 MaxRounds = 4
 Orders = {"rev"}
INVARIANTS Monotone AllDone Emit
CHECK_DEADLOCK FALSE
