SPECIFICATION MFair
CONSTANTS
  Cfg <- MCCfg4
  Threads <- Two
  Refusals = 0
  Losses = 0
  Horizon = 5
CHECK_DEADLOCK FALSE
INVARIANTS Numbered Stepped Staggered Retrying Ends Lines Complete
PROPERTY Terminates
