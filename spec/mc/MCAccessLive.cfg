SPECIFICATION Spec
CONSTANTS Alphabet = {97, 233, 8364, 128512}
          MaxCps = 2
          EndOctets = {0, 65, 128, 195, 240}
          AnyOctets = {}
          MaxLen = 0
          CutShort = FALSE
PROPERTY Terminates
CHECK_DEADLOCK FALSE
