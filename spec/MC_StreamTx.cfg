SPECIFICATION Spec
CONSTANTS
    WHash = 1
    WInt = 1
    WAmt = 1
    Alphabet = {0, 1}
    MaxBytes = 14
    Kinds = {"tx", "witness"}
    Done0 = 1
INVARIANTS Agree Stable RoundTrip Again Windows
CHECK_DEADLOCK FALSE
