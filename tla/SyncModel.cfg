SPECIFICATION Spec
CONSTANTS N = 5
          Kept = 2
          Room = 3
          Batch = 2
          Forks = 3
          V = 6
INVARIANTS Sound Right Behind NotAhead
PROPERTY Done
CHECK_DEADLOCK FALSE
