SPECIFICATION Spec
CONSTANTS
    Alphabet = {0, 1, 2, 127, 252, 253, 254, 255}
    MaxBytes = 5
INVARIANTS Minimal Prefix Fixed Halves Export
CHECK_DEADLOCK FALSE
