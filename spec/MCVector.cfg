CONSTANTS Vals = {0, 1, 3} MaxLen = 2 MaxVecs = 2 Variant = "none"
SPECIFICATION Spec
INVARIANTS Complete Laws EmitCase
PROPERTY Ends
CHECK_DEADLOCK FALSE
