SPECIFICATION Spec
CONSTANTS N = 4
          V = 2
          K = 4
INVARIANTS Same Tight Forward NeverUnscheduled Latest
CHECK_DEADLOCK FALSE
