SPECIFICATION Spec
CONSTANTS MaxEvents = 6 MaxDepth = 3 Menu = 1
INVARIANT Meaning
INVARIANT History
