SPECIFICATION Spec
VIEW View
ALIAS Show
CONSTANTS
 MaxLen = 9
 Texts = "few"
 Names = "one"
 Sub = {TRUE}
 Io = "UTF8"
INVARIANTS RoundTrip Rejected Context
