CONSTANTS NR = 3 NC = 1 NK = 1 Vals = {0, 1, 2} Lbls = {0, 1} MaxLv = {0, 1, 3} NT = 2 Variant = "none"
SPECIFICATION Spec
INVARIANTS NothingLostOrMixed NoEmptyNode DepthBounded LookupAgrees Confluent Complete
PROPERTY GrowthEnds
CHECK_DEADLOCK FALSE
