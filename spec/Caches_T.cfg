SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Days = {1, 2}
  Formats = {1, 2, 3}
  Objects = {1}
  MAX = 1
  CALLS = 3
  Broken = "none"
INVARIANTS Right Sound Few Alone

CHECK_DEADLOCK FALSE
