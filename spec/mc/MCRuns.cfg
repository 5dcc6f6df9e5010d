SPECIFICATION Spec
CONSTANTS Alphabet = {97, 768, 803, 795, 233, 4352, 4449, 4520, 44032, 8205, 127462, 12441, 894, 64257, 13}
          MaxRuns = 3
          MaxTimes = 2
INVARIANTS SameSegments SameForms Back
CHECK_DEADLOCK FALSE
