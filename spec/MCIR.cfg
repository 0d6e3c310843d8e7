SPECIFICATION Spec
CONSTANT MaxN = 5
INVARIANTS Bounded Truthful ZeroTruthful
PROPERTY Terminates
