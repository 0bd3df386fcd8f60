SPECIFICATION Spec
CONSTANTS MaxOps = 12
 MaxDepth = 4
 Rich = TRUE
INVARIANTS ItemsExact Cut Protocol Emit
