SPECIFICATION Spec
CONSTANTS
 Max = 5
 Heights = {2, 3}
 Froms = {1, 3}
 Tos = {2, 3}
 Values = {1, 3}
 Fees0 = {1}
 BlockLen = 2
 Contracts3 = "all"
 Balances = {2}
 Blocks = 1
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edges
