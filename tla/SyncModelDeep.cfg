SPECIFICATION Spec
CONSTANTS N = 6
          Kept = 3
          Room = 4
          Batch = 2
          Forks = 4
          V = 7
INVARIANTS Sound Right Behind NotAhead
PROPERTY Done
CHECK_DEADLOCK FALSE
