SPECIFICATION CSpec
CONSTANTS
  Others <- ByteCodes
  Letters <- ByteLetters
  Heads <- ByteHeads
  Tails <- SomeTails
  Depth = 2
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Placed NothingIgnored Apart LiteralExact LayoutIrrelevant StretchIrrelevant ErrorStays Emit
PROPERTIES Terminates
