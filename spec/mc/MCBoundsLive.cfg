SPECIFICATION Spec
CONSTANTS Octets = {65, 128, 226, 255}
          MaxOctets = 3
          LongOctets = {128, 254}
          LongLen = 8
          Alphabet = {97, 8364}
          MaxText = 2
PROPERTY Terminates
CHECK_DEADLOCK FALSE
