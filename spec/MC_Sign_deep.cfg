SPECIFICATION Spec
CONSTANTS
    MaxEdits = 4
    WHash = 1
    WInt = 1
    WAmt = 1
    WS <- ToyWS
    Order <- ToyOrder
    HalfOrder <- ToyHalf
    SAdd <- ToySAdd
    SMul <- ToySMul
    SNeg <- ToySNeg
    SInv <- ToySInv
    SRed <- ToySRed
    PG <- ToyG
    PAdd <- ToyPAdd
    PNeg <- ToyPNeg
    PMul <- ToyPMul
    POn <- ToyPOn
    PLift <- ToyPLift
    Sha512 <- ToySha512
    Ripemd160 <- ToyRipemd
    HmacSha512 <- ToyHmac512
    Pbkdf2 <- ToyPbkdf2
    Sha256 <- Frame
    HmacSha256 <- ToyHmac256
    Text <- ToyText
INVARIANTS LegacyCommits SegwitCommits IdCommits OthersKeep
VIEW View
CHECK_DEADLOCK FALSE
