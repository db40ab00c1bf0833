SPECIFICATION HSpec
CHECK_DEADLOCK FALSE
