SPECIFICATION MCSpec
CONSTANTS
  Alphabet <- Labels
  Depth = 4
  Envs <- Plain
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS TypeOK Disassembles SinglePassIsTwoPass TotalIsExact ExtentIsLast SuccessMeansComplete Located FirstError Emit
PROPERTIES SymAppendOnly OneAtATime PendKept Quiet EndEnds Terminates
