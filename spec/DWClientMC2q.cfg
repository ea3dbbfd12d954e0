SPECIFICATION MFair
CONSTANTS
  Cfg <- MCCfg2
  Threads <- Two
  Refusals = 0
  Losses = 0
  Horizon = 3
CHECK_DEADLOCK FALSE
INVARIANTS Numbered Paced Retrying Ends Lines Complete
PROPERTY Terminates
