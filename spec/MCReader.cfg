SPECIFICATION RSpec
CONSTANTS
  Lengths <- Around
  MaxLines = 3
  Base = 128
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS NoOverflow InOrder AllLines Emit
PROPERTY Ends
