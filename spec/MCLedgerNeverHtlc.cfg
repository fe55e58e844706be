SPECIFICATION Spec
CONSTANTS
 Max = 7
 Heights = {2, 3}
 Froms = {1, 3}
 Tos = {2, 3}
 Values = {1, 4}
 Fees0 = {0}
 BlockLen = 1
 Contracts3 = "all"
 Balances = {3}
 Blocks = 1
CHECK_DEADLOCK FALSE
INVARIANT NeverHtlc
