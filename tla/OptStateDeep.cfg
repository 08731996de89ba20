SPECIFICATION Spec
VIEW View
INVARIANT Same
CHECK_DEADLOCK FALSE
CONSTANTS
  MaxOps = 9
  MaxDepth = 3
  Slots = {1,2}
  Vals = {0,1}
  Show = FALSE
  RestoreAlways = TRUE
