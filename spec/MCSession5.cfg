SPECIFICATION Spec
CONSTANTS
  MaxFrames = 5
  UsedSlots = {0,1}
  Acts = {"d"}
INVARIANTS InOrder SeekSound RuleSound 
CHECK_DEADLOCK FALSE
