------------------------------ MODULE MCReader ------------------------------
EXTENDS Reader
\* around the sizes that the buffer takes
Around == {0, 1, 40, 126, 127, 128, 254, 255, 256, 510, 511}
=============================================================================
