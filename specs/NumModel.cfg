INIT Init
NEXT Next
CHECK_DEADLOCK FALSE
CONSTANT Step = 1024
INVARIANTS Converted Variable Narrow Zigzag Text Chars1 Surrogate
