SPECIFICATION SpecAny
CONSTANTS Alphabet = {}
          MaxCps = 0
          EndOctets = {65, 128, 240}
          AnyOctets = {97, 128, 195, 226, 240, 248, 252, 254, 255}
          MaxLen = 5
          CutShort = FALSE
INVARIANTS InsideText EndOnlyFromEnd ForwardStaysInside StaysInside RightAnswer
CHECK_DEADLOCK FALSE
