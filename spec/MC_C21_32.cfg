SPECIFICATION Spec
CONSTANTS Shape <- N32
 Amps = {0, 1}
 MaxOps = 3
INVARIANTS Parts Projected NotElse Admissible Twin Logs LogsAt
CHECK_DEADLOCK FALSE
