SPECIFICATION Spec
CONSTANTS
  Longest = 1
  Clients = {"x", "y"}
  Each = 1
  Alphabet = {"S", "Fa", "Fb", "M"}
INVARIANTS NoMore AllOfIt Moving Somewhere
PROPERTY Ends
CHECK_DEADLOCK FALSE
