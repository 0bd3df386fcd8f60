SPECIFICATION Spec
CONSTANTS MaxAttr = 1
 Rich = FALSE
INVARIANTS FindsWhatWasWritten WidthIndependent CutIndependent Emit
