SPECIFICATION Spec
CONSTANTS W = 2
 H = 1
 MaxRounds = 3
 Fine = TRUE
 Whole = FALSE
INVARIANTS SafeReads NoOverlap Settled Released Counts
PROPERTIES Finishes
CHECK_DEADLOCK FALSE
