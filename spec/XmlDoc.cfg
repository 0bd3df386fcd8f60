SPECIFICATION Spec
CONSTANTS MaxOps = 3
 MaxDepth = 2
 Rich = FALSE
INVARIANTS ItemsExact Cut Protocol Emit
