SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2, 3}
  Days = {1, 2}
  Formats = {1, 2}
  Objects = {1}
  MAX = 0
  CALLS = 1
  Broken = "none"
INVARIANTS Right Sound Few Alone
PROPERTY Ends
CHECK_DEADLOCK FALSE
