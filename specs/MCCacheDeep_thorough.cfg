SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2, 3}
  Reqs = {"a", "b", "c"}
INVARIANTS RightAnswer NoPartialFile NotTracedTwice
