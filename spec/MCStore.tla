------------------------------- MODULE MCStore -------------------------------
EXTENDS Store
\* names that compete for the last and the first places of a table of 17
Edge == {"M2", "L1", "N3", "M3", "M1", "L0", "B8"}
Many == <<"H0", "L5", "G3", "C2", "E6", "Z5", "J3", "D4", "U2", "W8", "K4", "V2", "I2", "T9", "S4", "R5", "Q6", "P3", "O2">>
SomeFills == {0, 5, 6, 7, 8, 15, 17}
TinyNames == {"A0", "A1", "A2", "A3", "A4", "B0", "C5"}
NoFill == {0}
=============================================================================
