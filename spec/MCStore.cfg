SPECIFICATION SSpec
CONSTANTS
  Free <- Edge
  Fillers <- Many
  Fills <- SomeFills
  Depth = 3
  Base = 17
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS Refines Once Counted Roomy Emit
