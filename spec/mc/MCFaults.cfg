SPECIFICATION Spec
CONSTANTS Units = {1, 2}
          MaxPieces = 3
          MaxPiece = 2
          MaxAgain = 2
          Keeps = FALSE
INVARIANTS Whole Complete NothingHeld
PROPERTIES OnlyAppends Terminates
CHECK_DEADLOCK TRUE
