CONSTANTS K = 3 NL = 4 NQ = 1 Vote = "none"
SPECIFICATION Spec
INVARIANTS VoteIsMajority HitsBounded SplitNeverHurts
PROPERTY Ends
CHECK_DEADLOCK FALSE
