SPECIFICATION Spec
CONSTANTS MaxSize = 40
 Gs = {8, 12}
 MaxB = 6
INVARIANTS Partition OwnersOnly Kept NothingMissing
CHECK_DEADLOCK FALSE
