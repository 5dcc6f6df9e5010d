SPECIFICATION TSpec
CONSTANT Cursors = {0, 1, 2}
INVARIANT TypeOK
CHECK_DEADLOCK FALSE
