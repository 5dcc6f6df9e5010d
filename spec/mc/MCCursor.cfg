SPECIFICATION Spec
CONSTANTS Cursors = {1, 2}
          Alphabet = {97, 233, 8364, 66376}
          MaxLen = 3
INVARIANTS TypeOK IncDecInverse EqualIsSameIndex TextWellFormed
VIEW View
PROPERTY Refines
CHECK_DEADLOCK FALSE
