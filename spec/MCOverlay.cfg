SPECIFICATION Spec
CONSTANTS
 Partial = FALSE
 NKeys = 2
 NLayers = 3
 Vals = {"a"}
INVARIANT CleanShows
PROPERTY Isolated
PROPERTY FlushMoves
VIEW View_
CHECK_DEADLOCK FALSE
