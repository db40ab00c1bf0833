SPECIFICATION Spec
CONSTANTS MaxSize = 140
 Gs = {8, 16, 32}
 MaxB = 16
INVARIANTS Partition OwnersOnly Kept NothingMissing
CHECK_DEADLOCK FALSE
