SPECIFICATION TourSpec
CONSTANTS MaxEvents = 9 MaxDepth = 3 Menu = 1
VIEW View
