SPECIFICATION Spec
CONSTANTS
  Longest = 3
  Clients = {"x"}
  Each = 1
  Alphabet = {"C", "S", "Fa", "Fb", "M", "R", "R2", "s"}
INVARIANTS NoMore AllOfIt Moving Somewhere
PROPERTY Ends
CHECK_DEADLOCK FALSE
