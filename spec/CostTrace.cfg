SPECIFICATION Spec
CONSTANTS
  Small = 64
  Patience = 1500
  Factor = 64
  Slack = 128
POSTCONDITION Consumed
CHECK_DEADLOCK FALSE
