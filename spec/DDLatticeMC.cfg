CONSTANTS N = 2
SPECIFICATION Spec
INVARIANTS Triples Reps Distr Summaries Frontiers
CHECK_DEADLOCK FALSE
