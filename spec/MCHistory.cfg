CONSTANTS Names = {"a", "b"} MaxRounds = 2 Rows = {1, 2} MaxCalls = 4 Variant = "none"
SPECIFICATION Spec
INVARIANTS AllPrefixes EmitHist
PROPERTIES KnownOnlyGrows MemoOnlyGrows
CHECK_DEADLOCK FALSE
