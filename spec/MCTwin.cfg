CONSTANTS NR = 3 NC = 1 NK = 1 Vals = {0, 1, 2} Lbls = {0, 1, 3} MaxLv = {1, 3} Variant = "none" Kinds = {"perm", "dup", "copy", "const"}
SPECIFICATION Spec
INVARIANTS Correspond NeverLoose EmitCase
CHECK_DEADLOCK FALSE
