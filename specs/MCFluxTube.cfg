SPECIFICATION Spec
CONSTANTS NXs = {4, 5, 7}
 Ks = {1, 2, 3, 5, 9}
 Rs = {1, 2, 3}
 NYs = {1, 3}
INVARIANTS Once Windows Weights Uniform
CHECK_DEADLOCK FALSE
