SPECIFICATION TSpec
INVARIANTS WrittenIsConcatenation PositionFollows ReadsBack
CHECK_DEADLOCK FALSE
