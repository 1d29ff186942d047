SPECIFICATION Spec
CONSTANTS
    Cells = {1, 2, 3}
    Secrets = {"a", "b"}
    Kinds = {"scalar", "prv", "hdprv"}
INVARIANTS Gone Only Returned
PROPERTY Alone
VIEW View
CHECK_DEADLOCK FALSE
