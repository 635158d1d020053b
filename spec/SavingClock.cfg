SPECIFICATION Spec
CONSTANTS
 Standards = {0, 210}
 Savings <- SavingSet
 Begins = {0, 120, 1439}
 Lengths = {1, 2, 3}
 Ends = {120, 180, 1438}
 Span = 6600
INVARIANTS Rule Shown Honest Twice Never
CHECK_DEADLOCK FALSE
