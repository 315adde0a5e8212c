SPECIFICATION CSpec
CONSTANTS
  Others = {}
  Letters <- DigitLetters
  Heads <- DigitHeads
  Tails <- NoTails
  Depth = 2
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Placed NothingIgnored Apart LiteralExact LayoutIrrelevant StretchIrrelevant ErrorStays Emit
PROPERTIES Terminates
