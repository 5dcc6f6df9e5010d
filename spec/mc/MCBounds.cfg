SPECIFICATION Spec
CONSTANTS Octets = {65, 63, 128, 191, 195, 226, 240, 248, 252, 254, 255}
          MaxOctets = 3
          LongOctets = {65, 128, 254}
          LongLen = 8
          Alphabet = {97, 233, 8364, 66376}
          MaxText = 3
INVARIANTS CheckIsExact EnforceRepairs EnforceThenCheck InsideRange SliceRepaired
CHECK_DEADLOCK FALSE
