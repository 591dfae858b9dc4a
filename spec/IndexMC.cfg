SPECIFICATION Spec
CONSTANTS Ts = {0, 1, 2, 7, 8, 15, 255, 256, 263, 511, 32769, 65535} MaxTypes = 3
INVARIANT Listed Member Short Two Empty Prefixes
CHECK_DEADLOCK FALSE
