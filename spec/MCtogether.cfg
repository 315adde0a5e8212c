SPECIFICATION TSpec
CONSTANTS
  MaxSwitches = 2
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS AsIfAlone Emit
PROPERTIES OwnFileOnly BothEnd
