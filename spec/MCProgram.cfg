CONSTANTS Vals = {0, 1, 3} MaxRows = 2 Variant = "none"
SPECIFICATION Spec
INVARIANTS ReportRight Blind EmitCase
PROPERTY Ends
CHECK_DEADLOCK FALSE
