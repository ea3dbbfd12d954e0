SPECIFICATION GSpec
CONSTANTS
  Inf = 1000
  Chains <- GChains
  MaxReqs <- GReqs
  Conns <- GConns
  Losses = 100
  Horizon = 100
  Cfg <- GCfg
  Pieces = FALSE
  Leave = TRUE
CHECK_DEADLOCK FALSE
INVARIANT Emit
VIEW View
