SPECIFICATION Spec
CONSTANTS
 Threads = {t1, t2}
 K = 2
 MaxHeight = 5
 Queries = 2
 UseLock = TRUE
 Total = 50
 Initial = 10
 Speed = 4
INVARIANT CacheRight
INVARIANT AnswersRight
INVARIANT Exclusive
INVARIANT NoDeadlock
INVARIANT Monotone
PROPERTY CacheGrows
PROPERTY EveryQueryAnswered
CHECK_DEADLOCK FALSE
