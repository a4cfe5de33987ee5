SPECIFICATION Spec
CONSTANTS Depth = 4
 Gen = TRUE
INVARIANTS InRange Aligned Apart Intact PaddingZero Emit
CHECK_DEADLOCK FALSE
