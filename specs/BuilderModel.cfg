SPECIFICATION Spec
CONSTANTS Depth = 3
 Gen = FALSE
INVARIANTS InRange Aligned Apart Intact PaddingZero Emit
CHECK_DEADLOCK FALSE
