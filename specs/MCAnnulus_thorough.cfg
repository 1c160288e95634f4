SPECIFICATION Spec
CONSTANTS NXs = {2, 3, 4, 5, 6, 7, 9, 12, 16, 23}
 NZs = {4, 5, 8, 9, 15, 21, 30, 41, 64}
 Extra = {0, 1, 2, 3}
 Sizes = {9, 20}
INVARIANTS LevelsOK Shrinks RightSize
PROPERTY Ends
CHECK_DEADLOCK FALSE
