SPECIFICATION Spec
CONSTANTS Alphabet = {0, 127, 2047, 2048, 65535, 65536, 1114111}
          TextLen = 2
          Room = 7
INVARIANTS WrittenIsConcatenation ReadsBack PositionFollows
CHECK_DEADLOCK FALSE
