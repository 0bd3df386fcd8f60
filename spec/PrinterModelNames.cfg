SPECIFICATION Spec
VIEW View
ALIAS Show
CONSTANTS
 MaxLen = 6
 Texts = "few"
 Names = "two"
 Sub = {FALSE, TRUE}
 Io = "UCS2BE"
INVARIANTS RoundTrip Rejected Context
