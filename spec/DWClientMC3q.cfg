SPECIFICATION MFair
CONSTANTS
  Cfg <- MCCfg3
  Threads <- One
  Refusals = 1
  Losses = 0
  Horizon = 8
CHECK_DEADLOCK FALSE
INVARIANTS Numbered Stepped Staggered Retrying Ends Lines Complete
PROPERTY Terminates
