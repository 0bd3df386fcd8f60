SPECIFICATION Spec
VIEW View
CONSTANT Depth = 1
INVARIANTS EndExplicit InRange
PROPERTY Kept
