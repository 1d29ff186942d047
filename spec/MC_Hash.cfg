SPECIFICATION Spec
CONSTANTS
    Blk = 4
    LenW = 1
    MaxWritten = 9
    MaxBegins = 2
INVARIANTS Buffer Whole SameAsOneShot Injective Export
VIEW View
CHECK_DEADLOCK FALSE
