CONSTANTS Fields = {"1", "2.5", "x", ""} Labels = {"0", "1", "2", "-1", "0.5", "1.0"} MaxRecs = 2 Wid = 2 Kinds = {"single", "onehot", "multi"} KK = 2 Variant = "none"
SPECIFICATION Spec
INVARIANTS Faithful RefusedOnlyIfBad BadNeverDone EmitCase
PROPERTY Decided
CHECK_DEADLOCK FALSE
