SPECIFICATION Spec
CONSTANTS
    What = "wit"
    Nets = {"main", "test", "reg", "sig"}
    Vers = {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 31}
    Sizes = {0, 1, 2, 3, 4, 5, 18, 19, 20, 21, 22, 31, 32, 33, 39, 40, 41}
    WS <- ToyWS
    Order <- ToyOrder
    HalfOrder <- ToyHalf
    SAdd <- ToySAdd
    SMul <- ToySMul
    SNeg <- ToySNeg
    SInv <- ToySInv
    SRed <- ToySRed
    PG <- ToyG
    PAdd <- ToyPAdd
    PNeg <- ToyPNeg
    PMul <- ToyPMul
    POn <- ToyPOn
    PLift <- ToyPLift
    Sha256 <- RealSha256
    Sha512 <- ToySha512
    Ripemd160 <- ToyRipemd
    HmacSha256 <- ToyHmac256
    HmacSha512 <- ToyHmac512
    Pbkdf2 <- ToyPbkdf2
    BigDigits <- RealBigDigits
    BigBytes <- RealBigBytes
    Text <- Ascii
INVARIANTS WitRight WitOther B58Right WifRight Export
CHECK_DEADLOCK FALSE
