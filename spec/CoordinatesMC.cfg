SPECIFICATION MSpec
CONSTANTS Angles <- A2
 Sizes <- S2
 MaxLen = 6
INVARIANTS RoundTrip Rejected Grid Rigid
CHECK_DEADLOCK FALSE
