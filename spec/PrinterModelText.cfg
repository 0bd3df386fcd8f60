SPECIFICATION Spec
VIEW View
ALIAS Show
CONSTANTS
 MaxLen = 4
 Texts = "all"
 Names = "two"
 Sub = {TRUE}
 Io = "ISO1"
INVARIANTS RoundTrip Rejected Context
