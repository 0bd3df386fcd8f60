SPECIFICATION Spec
VIEW View
INVARIANT Known
