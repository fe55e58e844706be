SPECIFICATION SpecCrash
CONSTANTS
 Max = 7
 Heights = {3}
 Froms = {1, 3}
 Tos = {2, 3}
 Values = {1, 4}
 Fees0 = {0}
 BlockLen = 2
 Contracts3 = "all"
 Balances = {3}
 Blocks = 1
INVARIANT Bounded
INVARIANT StepsAreThePush
INVARIANT NoEarlySpending
INVARIANT EveryBalance
INVARIANT VestingHolds
INVARIANT HtlcHolds
INVARIANT TermsKept
INVARIANT NewContracts
INVARIANT GoneAccounts
INVARIANT MinerIsBasic
INVARIANT Reversible
PROPERTY Conserves
PROPERTY OnlyCommitChanges
CHECK_DEADLOCK FALSE
