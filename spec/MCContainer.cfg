SPECIFICATION Spec
CONSTANTS MaxBoxes = 4
 MaxIdx = 2
INVARIANTS Contiguous NoMixing HeldOk InOrder Delivered NeedMonotone StartRule Emit
CHECK_DEADLOCK FALSE
