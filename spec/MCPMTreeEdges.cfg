SPECIFICATION Spec
CONSTANTS
 Keys <- KeysSmall
 Values = {"a", "b"}
 Nothing = "-"
 Zero <- ZeroMark
INVARIANT Canonical
INVARIANT Lookup
INVARIANT RootIsFunction
PROPERTY ChangedExactly
PROPERTY OthersKept
VIEW View
CHECK_DEADLOCK FALSE
ACTION_CONSTRAINT Edges
