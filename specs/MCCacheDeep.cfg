SPECIFICATION Spec
CONSTANTS
  Procs = {1, 2}
  Reqs = {"a", "b"}
INVARIANTS RightAnswer NoPartialFile NotTracedTwice
