SPECIFICATION Spec
CONSTANTS
  Clients = {1, 2}
  Days = {1, 2}
  Formats = {1, 2}
  Objects = {1}
  MAX = 0
  CALLS = 2
  Broken = "no-lock"
INVARIANTS Right Sound Few Alone

CHECK_DEADLOCK FALSE
