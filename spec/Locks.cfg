SPECIFICATION Spec
CHECK_DEADLOCK FALSE
CONSTANT Threads = 3
INVARIANTS NoDeadlock Released Exclusion
