SPECIFICATION Spec
CONSTANTS Alphabet = {97, 233, 8364, 128512}
          MaxCps = 3
          EndOctets = {0, 65, 128, 195, 240}
          AnyOctets = {}
          MaxLen = 0
          CutShort = FALSE
INVARIANTS InsideText EndOnlyFromEnd ForwardStaysInside StaysInside RightAnswer
CHECK_DEADLOCK FALSE
