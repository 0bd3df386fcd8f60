SPECIFICATION Spec
VIEW View
CONSTANT Depth = 3
INVARIANTS LastIn EmptyTells
