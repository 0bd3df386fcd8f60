SPECIFICATION Spec
CONSTANT MaxLen = 40
VIEW View
INVARIANTS Terminates NoInternal Emit
CHECK_DEADLOCK FALSE
