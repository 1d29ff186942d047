SPECIFICATION Spec
CONSTANTS
    Slots = {1, 2}
    Values = {"a", "b"}
    Track = TRUE
INVARIANTS TypeOK Independent Export
VIEW View
CHECK_DEADLOCK FALSE
