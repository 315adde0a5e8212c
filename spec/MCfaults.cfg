SPECIFICATION MCSpec
CONSTANTS
  Alphabet <- Short
  Depth = 3
  Envs <- Faults
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK Disassembles SinglePassIsTwoPass TotalIsExact ExtentIsLast SuccessMeansComplete Located FirstError Emit
PROPERTIES SymAppendOnly OneAtATime PendKept Quiet EndEnds Terminates
