SPECIFICATION Spec
INVARIANTS Inverse Printed Bounded Ascii
