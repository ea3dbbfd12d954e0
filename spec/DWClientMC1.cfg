SPECIFICATION MFair
CONSTANTS
  Cfg <- MCCfg
  Threads <- One
  Refusals = 2
  Losses = 1
  Horizon = 6
CHECK_DEADLOCK FALSE
INVARIANTS Numbered Paced Retrying Ends Lines Complete
PROPERTY Terminates
