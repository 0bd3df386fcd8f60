SPECIFICATION Spec
VIEW View
INVARIANTS Fits FlagTells
