SPECIFICATION MCSpec
CONSTANTS
  Inf = 1000
  Chains <- MCChains
  MaxReqs = 2
  Conns <- MCConns
  Losses = 1
  Horizon = 5
  Cfg <- MCCfg
  Pieces = FALSE
  Leave = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS OneReply InOrder Quorums Waiting Timeouts Deadlines Durable DurableReply Storage Counted NothingLeft
