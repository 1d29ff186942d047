SPECIFICATION Spec
CONSTANTS
    Deep = FALSE
    What = "hd"
    WS <- ToyWS
    Order <- ToyOrder
    HalfOrder <- ToyHalf
    SAdd <- ToySAdd
    SMul <- ToySMul
    SNeg <- ToySNeg
    SInv <- ToySInv
    SRed <- ToySRed
    PG <- ToyG
    PAdd <- ToyPAdd
    PNeg <- ToyPNeg
    PMul <- ToyPMul
    POn <- ToyPOn
    PLift <- ToyPLift
    Sha256 <- ToySha256
    Sha512 <- ToySha512
    Ripemd160 <- ToyRipemd
    HmacSha256 <- ToyHmac256
    HmacSha512 <- ToyHmac512
    Pbkdf2 <- ToyPbkdf2
    Text <- ToyText
    BigDigits <- PureDigits
    BigBytes <- PureBytes
INVARIANTS Group Scalar Sign Sigs Hd Ders DerBytes
CHECK_DEADLOCK FALSE
