SPECIFICATION Spec
VIEW View
ALIAS Show
CONSTANTS
 MaxLen = 5
 Texts = "all"
 Names = "one"
 Sub = {TRUE}
 Io = "ISO2"
INVARIANTS RoundTrip Rejected Context
