SPECIFICATION Spec
CONSTANTS
  MaxFrames = 3
  UsedSlots = {0,1}
  Acts = {"d","s"}
INVARIANTS InOrder SeekSound RuleSound Emit
CHECK_DEADLOCK FALSE
