SPECIFICATION Spec
CONSTANTS Classes = {0, 1, 2, 4, 12, 15}
          MaxLen = 3
          Iterators = {1, 2}
VIEW View
INVARIANTS TypeOK DenotesASegment Partition PairwiseOnly EqualityLaws
CHECK_DEADLOCK FALSE
