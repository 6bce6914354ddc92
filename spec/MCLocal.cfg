CONSTANTS NR = 4 NC = 1 NK = 1 Vals = {0, 1, 2, 3} Lbls = {0, 1, 3} MaxLv = {0, 1, 2, 3} Variant = "none"
SPECIFICATION Spec
INVARIANTS DeeperOnlyExtends SubtreeIsTree EmitCase
CHECK_DEADLOCK FALSE
