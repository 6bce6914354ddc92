CONSTANTS Names = {1, 2} Thrs = {0, 1} Data = {1, 2} Depth = 2 Variant = "none"
SPECIFICATION Spec
INVARIANTS ReadsBack LineCount EmitCase
PROPERTY Ends
CHECK_DEADLOCK FALSE
