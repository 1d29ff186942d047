SPECIFICATION Spec
CONSTANTS
    Cells = {1, 2}
    Secrets = {"a", "b"}
    Kinds = {"scalar", "prv", "hdprv"}
INVARIANTS Gone Only Returned Export
PROPERTY Alone
VIEW View
CHECK_DEADLOCK FALSE
