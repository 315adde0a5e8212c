SPECIFICATION SSpec
CONSTANTS
  Free <- TinyNames
  Fillers <- Many
  Fills <- NoFill
  Depth = 7
  Base = 5
  EmitTests = FALSE
CHECK_DEADLOCK FALSE
INVARIANTS Refines Once Counted Roomy
