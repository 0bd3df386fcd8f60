SPECIFICATION Spec
VIEW View
ALIAS Show
CONSTANTS
 MaxLen = 6
 Texts = "few"
 Names = "one"
 Sub = {FALSE, TRUE}
 Io = "UTF8"
INVARIANTS RoundTrip Rejected Context
