CONSTANTS NR = 3 NC = 2 NK = 1 Vals = {0, 1} Lbls = {0, 1, 3} TrackPrevious = TRUE
SPECIFICATION Spec
INVARIANTS ColumnExact Optimal Honest RightSide
PROPERTY Terminates
CHECK_DEADLOCK FALSE
