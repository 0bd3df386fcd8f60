SPECIFICATION Spec
CONSTANTS MaxAttr = 2
 Rich = FALSE
INVARIANTS FindsWhatWasWritten WidthIndependent CutIndependent
