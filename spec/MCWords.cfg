SPECIFICATION CSpec
CONSTANTS
  Others = {}
  Letters <- WordLetters
  Heads <- WordHeads
  Tails <- SomeTails
  Depth = 2
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Placed NothingIgnored Apart LiteralExact LayoutIrrelevant StretchIrrelevant ErrorStays Emit
PROPERTIES Terminates
