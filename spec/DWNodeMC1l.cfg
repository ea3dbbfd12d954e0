SPECIFICATION MCFair
CONSTANTS
  Inf = 1000
  Chains <- MCChains
  MaxReqs = 1
  Conns <- MCConns
  Losses = 0
  Horizon = 4
  Cfg <- MCCfg
  Pieces = FALSE
  Leave = TRUE
CHECK_DEADLOCK FALSE
PROPERTY Answered
