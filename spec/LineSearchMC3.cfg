SPECIFICATION Spec
CONSTANTS Searches = 3
          MaxIts = {0, 2}
INVARIANTS NonNegative NeverWorse Bounded ReturnsEvaluated
VIEW View
