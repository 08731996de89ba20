SPECIFICATION Spec
CONSTANTS N = 4
          V = 3
          K = 5
INVARIANTS Same Tight Forward NeverUnscheduled Latest
CHECK_DEADLOCK FALSE
