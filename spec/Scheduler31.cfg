SPECIFICATION Spec
CONSTANTS W = 3
 H = 1
 MaxRounds = 2
 Fine = TRUE
 Whole = FALSE
INVARIANTS SafeReads NoOverlap Settled Released Counts
CHECK_DEADLOCK FALSE
