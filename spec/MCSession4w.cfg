SPECIFICATION Spec
CONSTANTS
  MaxFrames = 4
  UsedSlots = {0,1,2}
  Acts = {"d"}
INVARIANTS InOrder SeekSound RuleSound 
CHECK_DEADLOCK FALSE
