SPECIFICATION Spec
CONSTANTS W = 2
 H = 2
 MaxRounds = 2
 Fine = FALSE
 Whole = FALSE
INVARIANTS SafeReads NoOverlap Settled Released Counts
CHECK_DEADLOCK FALSE
