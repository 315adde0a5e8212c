SPECIFICATION CSpec
CONSTANTS
  NoLabels <- TNone
  IsLabel <- THas
  LabelValue <- TAt
  AddLabel <- TAdd
  LabelCount <- TCount
VIEW View
CHECK_DEADLOCK FALSE
