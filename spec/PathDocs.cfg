SPECIFICATION DocsSpec
CONSTANTS MaxEvents = 7 MaxDepth = 3 Menu = 1
