SPECIFICATION Spec
CONSTANTS
    MaxLive = 1
    Kinds <- KindPairs
    Patterns = {"none", "blind", "A", "BA", "A2", "Aacc", "Aroot", "Afp", "Apath", "Bkey"}
    WHash = 1
    WInt = 4
    WAmt = 8
    WS <- ToyWS
    Order <- ToyOrder
    HalfOrder <- ToyHalf
    SAdd <- ToySAdd
    SMul <- ToySMul
    SNeg <- ToySNeg
    SInv <- ToySInv
    SRed <- ToySRed
    PG <- ToyG
    PAdd <- ToyPAdd
    PNeg <- ToyPNeg
    PMul <- ToyPMul
    POn <- ToyPOn
    PLift <- ToyPLift
    Sha256 <- ToySha256
    Sha512 <- ToySha512
    HmacSha512 <- ToyHmac512
    Pbkdf2 <- ToyPbkdf2
    BigDigits <- PureDigits
    BigBytes <- PureBytes
    Ripemd160 <- H20
    HmacSha256 <- HNonce
    Text <- ToyText
INVARIANTS Reads Order1 Parts OnlyOwn AllOwn Commute Again Writes FeeKnown Export
CHECK_DEADLOCK FALSE
