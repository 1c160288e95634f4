SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Reqs = {"a", "b"}
  MaxLen = 9
INVARIANTS RightAnswer NoPartialFile NotTracedTwice
