SPECIFICATION Spec
VIEW View
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 7
  MaxDepth = 3
  Slots = {1}
  Vals = {0,1}
  Show = FALSE
  RestoreAlways = TRUE
