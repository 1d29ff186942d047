SPECIFICATION Spec
CONSTANTS
    What = "wif"
    Nets = {"main", "reg"}
    Vers = {0, 1, 2, 16, 17}
    Sizes = {1, 2, 3, 19, 20, 21, 32, 33, 40, 41}
    WS = 32
    Order <- RealOrder
    HalfOrder <- RealHalfOrder
    SAdd <- ToySAdd
    SMul <- ToySMul
    SNeg <- ToySNeg
    SInv <- ToySInv
    SRed <- ToySRed
    PG <- ToyG
    PAdd <- ToyPAdd
    PNeg <- ToyPNeg
    PMul <- ToyPMul
    POn <- ToyPOn
    PLift <- ToyPLift
    Sha256 <- RealSha256
    Sha512 <- ToySha512
    Ripemd160 <- ToyRipemd
    HmacSha256 <- ToyHmac256
    HmacSha512 <- ToyHmac512
    Pbkdf2 <- ToyPbkdf2
    BigDigits <- RealBigDigits
    BigBytes <- RealBigBytes
    Text <- Ascii
INVARIANTS WitRight WitOther B58Right WifRight Export
CHECK_DEADLOCK FALSE
