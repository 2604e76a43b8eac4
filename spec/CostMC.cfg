SPECIFICATION Spec
CONSTANTS
  Small = 2
  Patience = 2
  Factor = 2
  Slack = 0
INVARIANT CostLaws
CHECK_DEADLOCK FALSE
