SPECIFICATION Spec
CONSTANTS MaxLen = 4
INVARIANTS Preserved Grows Emit
