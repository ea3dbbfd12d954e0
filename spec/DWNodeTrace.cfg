SPECIFICATION TraceSpec
CONSTANTS
  Inf = 2000000000
CHECK_DEADLOCK FALSE
POSTCONDITION Report
