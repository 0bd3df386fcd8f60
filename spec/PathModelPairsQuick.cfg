SPECIFICATION Spec
CONSTANTS MaxEvents = 6 MaxDepth = 3 Menu = 2
INVARIANT Meaning
INVARIANT History
