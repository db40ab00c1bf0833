SPECIFICATION Spec
CONSTANTS
  MaxFrames = 4
  UsedSlots = {0,1}
  Acts = {"d"}
INVARIANTS InOrder SeekSound RuleSound Emit
CHECK_DEADLOCK FALSE
