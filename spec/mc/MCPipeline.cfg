SPECIFICATION Spec
CONSTANTS Pairs = {97, 115, 768, 769, 775, 803, 837, 836, 2364, 2392, 3953, 2503, 2494, 12363, 12441, 8491, 7785, 44032, 44033, 4352, 4449, 4520, 12593, 12623, 64257, 10, 8205, 127462}
          PairLen = 2
          Triples = {115, 775, 803, 769, 4352, 4449, 4520, 7779, 837, 2364}
          TripleLen = 3
INVARIANTS ResultIsForm CountIsRight OnlyAppends WritesBehindReads Laws PiecewiseIsWhole
PROPERTY AppendOnly
CHECK_DEADLOCK FALSE
