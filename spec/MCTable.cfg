SPECIFICATION TSpec
CONSTANTS
  Names = {"A", "B", "C", "D", "E", "F"}
  Room <- SmallRoom
CHECK_DEADLOCK FALSE
INVARIANT Same
