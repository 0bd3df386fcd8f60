SPECIFICATION Spec
CONSTANTS MaxEvents = 7 MaxDepth = 3 Menu = 2
INVARIANT Meaning
INVARIANT History
