SPECIFICATION SSpec
CONSTANTS
  Words <- SomeWords
  MaxWords = 3
  Menu <- NoWords
  MaxRuns = 1
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS MeansWhatItSays Pure Emit
PROPERTIES OnlyRunsWrite OnlyOutput SuccessMeansWritten Ends
