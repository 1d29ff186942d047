SPECIFICATION Spec
CONSTANTS
    What = "tpl"
    MaxItems = 3
    Lens = {0, 1, 2, 20, 32, 33, 65, 72, 74, 75, 76, 77, 254, 255, 256, 257, 520}
    Codes = {0, 79, 81, 96, 97, 118, 172, 174, 255}
    Keys = {1, 2, 3, 11, 12}
    MaxKeys = 5
    WHash = 32
    WInt = 4
    WAmt = 8
    WS <- ToyWS
    Order <- ToyOrder
    HalfOrder <- ToyHalf
    SAdd <- ToySAdd
    SMul <- ToySMul
    SNeg <- ToySNeg
    SInv <- ToySInv
    SRed <- ToySRed
    PG <- ToyG
    PAdd <- ToyPAdd
    PNeg <- ToyPNeg
    PMul <- ToyPMul
    POn <- ToyPOn
    PLift <- ToyPLift
    Sha512 <- ToySha512
    HmacSha256 <- ToyHmac256
    HmacSha512 <- ToyHmac512
    Pbkdf2 <- ToyPbkdf2
    Sha256 <- H32
    Ripemd160 <- H20
    Text <- ToyText
INVARIANTS ReadsBack Shortest AsWitness NamesAll AnyOrder OneType Named Export
CHECK_DEADLOCK FALSE
