SPECIFICATION Spec
CONSTANTS Searches = 2
          MaxIts = {0, 2}
INVARIANTS NonNegative NeverWorse Bounded ReturnsEvaluated
VIEW View
