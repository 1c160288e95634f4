SPECIFICATION Spec
CONSTANTS NXs = {4, 5, 6, 7, 11}
 Ks = {1, 2, 3, 4, 5, 7, 9}
 Rs = {1, 2, 3, 5}
 NYs = {1, 3}
INVARIANTS Once Windows Weights Uniform
CHECK_DEADLOCK FALSE
