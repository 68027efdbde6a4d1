SPECIFICATION Spec
CONSTANTS Shape <- N33
 Amps = {0, 1}
 MaxOps = 2
INVARIANTS Parts Projected NotElse Admissible Twin Logs LogsAt
CHECK_DEADLOCK FALSE
