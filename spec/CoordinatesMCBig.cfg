SPECIFICATION MSpec
CONSTANTS Angles <- A3
 Sizes <- S3
 MaxLen = 8
INVARIANTS RoundTrip Rejected Grid Rigid
CHECK_DEADLOCK FALSE
