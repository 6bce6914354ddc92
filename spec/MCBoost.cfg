CONSTANTS Kinds = {"reg"} NR = 3 NC = 1 NK = 1 Vals = {0, 1, 2} Lbls = {0, 1, 3} Rates = {1, 2} MaxLv = {0, 1, 3} Rounds = 2 LeafRule = "spec"
SPECIFICATION Spec
INVARIANTS TrainedIsAsked ErrorShrinks ErrorsShrink FitsExactly SoftResiduals CurvPositive AmgZeroSum
PROPERTIES KeepsFit OnlyAppends
CHECK_DEADLOCK FALSE
