SPECIFICATION MFair
CONSTANTS
  Cfg <- MCCfg
  Threads <- One
  Refusals = 1
  Losses = 1
  Horizon = 3
CHECK_DEADLOCK FALSE
INVARIANTS Numbered Paced Retrying Ends Lines Complete
PROPERTY Terminates
