SPECIFICATION Spec
CONSTANTS Units = {1, 2}
          MaxPieces = 3
          MaxPiece = 3
          MaxAgain = 3
          Keeps = FALSE
INVARIANTS Whole Complete NothingHeld
PROPERTIES OnlyAppends Terminates
CHECK_DEADLOCK TRUE
