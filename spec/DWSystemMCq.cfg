SPECIFICATION Spec
CONSTANTS
  Longest = 3
  Clients = {"x"}
  Each = 1
  Alphabet = {"S", "Fb", "M", "R2", "s"}
INVARIANTS NoMore AllOfIt Moving Somewhere
PROPERTY Ends
CHECK_DEADLOCK FALSE
