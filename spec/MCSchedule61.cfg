SPECIFICATION Spec
CONSTANTS NG = 6
 NP = 1
 MaxRounds = 3
 Orders = {"threads"}
INVARIANTS Monotone AllDone Emit
CHECK_DEADLOCK FALSE
