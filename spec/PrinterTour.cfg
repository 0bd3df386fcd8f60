SPECIFICATION Spec
VIEW View
CONSTANT Depth = 2
INVARIANT Context
