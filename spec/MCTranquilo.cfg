SPECIFICATION Spec
INVARIANT Guarantees
PROPERTY OnlyAcceptMoves
PROPERTY HistoryGrows
CHECK_DEADLOCK TRUE
