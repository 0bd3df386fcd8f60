SPECIFICATION Spec
INVARIANT ReadsBack
