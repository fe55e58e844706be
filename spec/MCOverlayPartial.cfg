SPECIFICATION Spec
CONSTANTS
 Partial = TRUE
 NKeys = 2
 NLayers = 3
 Vals = {"a"}
INVARIANT CleanShows
PROPERTY Isolated
PROPERTY FlushMoves
PROPERTY PartialHides
VIEW View_
CHECK_DEADLOCK FALSE
