SPECIFICATION Spec
CONSTANTS MaxLen = 5
INVARIANTS Preserved Grows Emit
