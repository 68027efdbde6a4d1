SPECIFICATION Spec
CONSTANTS MaxN = 4
 YV = 3
INVARIANTS JoinInv PartsInv Mirrored SliceRange NegIndex AtNodes Between Outside Permuted
CHECK_DEADLOCK FALSE
