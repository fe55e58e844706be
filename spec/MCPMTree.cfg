SPECIFICATION Spec
CONSTANTS
 Keys <- KeysQuick
 Values = {"a", "b"}
 Nothing = "-"
 Zero <- ZeroMark
INVARIANT Canonical
INVARIANT Lookup
INVARIANT RootIsFunction
PROPERTY ChangedExactly
PROPERTY OthersKept
VIEW View
CHECK_DEADLOCK FALSE
