SPECIFICATION Spec
CONSTANTS NP = 4
 NV = 5
 MaxCrash = 3
INVARIANTS ProgressIsTrue DoneIsComplete NeverTwice
PROPERTIES OnlyForward Ends
CHECK_DEADLOCK FALSE
