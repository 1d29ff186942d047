SPECIFICATION Spec
CONSTANTS
    What = "bech"
    MaxPos = 88
    WS <- ToyWS
    Order <- ToyOrder
    HalfOrder <- ToyHalf
    SAdd <- ToySAdd
    SMul <- ToySMul
    SNeg <- ToySNeg
    SInv <- ToySInv
    SRed <- ToySRed
    PG <- ToyG
    PAdd <- ToyPAdd
    PNeg <- ToyPNeg
    PMul <- ToyPMul
    POn <- ToyPOn
    PLift <- ToyPLift
    Sha256 <- ToySha256
    Sha512 <- ToySha512
    Ripemd160 <- ToyRipemd
    HmacSha256 <- ToyHmac256
    HmacSha512 <- ToyHmac512
    Pbkdf2 <- ToyPbkdf2
    BigDigits <- PureDigits
    BigBytes <- PureBytes
    Text <- Ascii
INVARIANTS Additive One Two Three Linear Export
CHECK_DEADLOCK FALSE
