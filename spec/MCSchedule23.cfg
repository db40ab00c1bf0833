SPECIFICATION Spec
CONSTANTS NG = 2
 NP = 3
 MaxRounds = 3
 Orders = {"mix"}
INVARIANTS Monotone AllDone Emit
CHECK_DEADLOCK FALSE
