CONSTANTS NR = 4 NC = 1 NK = 1 Vals = {0, 1, 2, 3} Lbls = {0, 1, 3} MaxLv = {2, 9} NT = 4 Variant = "none"
SPECIFICATION SpecS
INVARIANTS AnyScheduleSameTree EmitSched
CHECK_DEADLOCK FALSE
