SPECIFICATION Spec
CONSTANTS Units = {1, 2}
          MaxPieces = 3
          MaxPiece = 2
          MaxAgain = 2
          Keeps = TRUE
INVARIANTS Whole Complete NothingHeld

CHECK_DEADLOCK TRUE
