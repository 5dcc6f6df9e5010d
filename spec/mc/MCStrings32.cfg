SPECIFICATION Spec
CONSTANTS Alphabet = {97, 769}
          MaxCps = 2
          MaxUnits = 4
          Enc = "32"
          Slots = {1, 2}
VIEW View
INVARIANTS AllWellFormed LongestPrefix GraphemeCut RoundTrip
PROPERTIES Independent SwapKeeps AppendOnly
CHECK_DEADLOCK FALSE
