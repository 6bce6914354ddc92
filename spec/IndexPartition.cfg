CONSTANTS NR = 3 NC = 2 Vals = {0, 1, 2} Thrs = {0, 1, 2, 3} MaxSteps = 3 WhenNoneReaches = "end"
SPECIFICATION Spec
INVARIANT SameGroups
CHECK_DEADLOCK FALSE
