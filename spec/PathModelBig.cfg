SPECIFICATION Spec
CONSTANTS MaxEvents = 8 MaxDepth = 3 Menu = 1
INVARIANT Meaning
INVARIANT History
