SPECIFICATION Spec
INVARIANTS Conforms Protocol Nested Bounded
