SPECIFICATION Spec
CONSTANTS NP = 3
 NV = 5
 MaxCrash = 2
INVARIANTS ProgressIsTrue DoneIsComplete NeverTwice
PROPERTIES OnlyForward Ends
CHECK_DEADLOCK FALSE
