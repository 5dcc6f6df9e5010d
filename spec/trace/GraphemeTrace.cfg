SPECIFICATION TSpec
CONSTANT Iterators = {0, 1, 2}
INVARIANTS TypeOK DenotesASegment
CHECK_DEADLOCK FALSE
