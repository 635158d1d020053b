SPECIFICATION Spec
CONSTANTS
  Clients = {1}
  Days = {1, 2}
  Formats = {1, 2, 3, 4}
  Objects = {1, 2}
  MAX = 2
  CALLS = 6
  Broken = "none"
INVARIANTS Right Sound Few Alone
PROPERTY Ends
CHECK_DEADLOCK FALSE
