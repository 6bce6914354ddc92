INIT TraceInit
NEXT TraceNext
VIEW View
CONSTRAINT Progress
POSTCONDITION Accepted
CHECK_DEADLOCK FALSE
