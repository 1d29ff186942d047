SPECIFICATION Spec
CONSTANTS
    WHash = 1
    WInt = 1
    WAmt = 1
    Alphabet = {0, 1, 2, 253}
    MaxBytes = 7
    Kinds = {"script", "witness", "txin", "txout", "tx"}
    Done0 = 1
INVARIANTS Agree Stable RoundTrip Again Windows
CHECK_DEADLOCK FALSE
