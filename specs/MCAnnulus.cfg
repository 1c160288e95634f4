SPECIFICATION Spec
CONSTANTS NXs = {2, 3, 4, 5, 7, 12, 23}
 NZs = {4, 5, 9, 21, 30, 41}
 Extra = {0, 1, 2}
 Sizes = {9, 20}
INVARIANTS LevelsOK Shrinks RightSize
PROPERTY Ends
CHECK_DEADLOCK FALSE
