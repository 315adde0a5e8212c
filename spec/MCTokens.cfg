SPECIFICATION TSpec
CONSTANTS Depth = 3  EmitTests = TRUE
CHECK_DEADLOCK FALSE
INVARIANTS LexInvertsJoin OnlyForms FormsNotSyntaxErrors ErrorPlace LayoutIrrelevant StretchIrrelevant Emit
