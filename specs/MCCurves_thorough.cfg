SPECIFICATION Spec
CONSTANTS Ls = {5, 7, 9, 14, 20}
 Hs = {6, 9, 16}
 Finds = {1, 2, 3, 5}
 Bs = {1, 2, 4, 5}
 Cuts = {50, 74, 90}
INVARIANTS AllClosed Monotone
CHECK_DEADLOCK FALSE
