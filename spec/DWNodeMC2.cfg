SPECIFICATION MCSpec
CONSTANTS
  Inf = 1000
  Chains <- MCChains
  MaxReqs = 3
  Conns <- MCConns
  Losses = 0
  Horizon = 0
  Cfg <- MCCfg
  Pieces = TRUE
  Leave = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS OneReply InOrder Quorums Waiting Timeouts Deadlines Durable DurableReply Storage Counted NothingLeft
