SPECIFICATION Spec
CONSTANTS Depth = 4
 Gen = FALSE
INVARIANTS InRange Aligned Apart Intact PaddingZero Emit
CHECK_DEADLOCK FALSE
