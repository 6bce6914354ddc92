CONSTANTS Rows = {1, 2} MaxQ = 4 Lbls = {0, 2, 5} Workers = 2 Variant = "none"
SPECIFICATION Spec
INVARIANTS InOrder Right ZeroIffExact
PROPERTY Reports
CHECK_DEADLOCK FALSE
