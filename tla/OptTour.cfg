SPECIFICATION Spec
VIEW View
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 6
  MaxDepth = 3
  Slots = {1}
  Vals = {0,1}
  Show = TRUE
  RestoreAlways = TRUE
