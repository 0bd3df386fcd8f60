SPECIFICATION Spec
INVARIANTS Encoded Decoded
