SPECIFICATION SSpec
CONSTANTS
  Words <- SomeWords
  MaxWords = 0
  Menu <- Histories
  MaxRuns = 2
  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS MeansWhatItSays Pure Emit
PROPERTIES OnlyRunsWrite OnlyOutput SuccessMeansWritten Ends
