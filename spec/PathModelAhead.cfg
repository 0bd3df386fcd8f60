SPECIFICATION Spec
CONSTANTS MaxEvents = 5 MaxDepth = 3 Menu = 3
INVARIANT Foresight
