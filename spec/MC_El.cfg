SPECIFICATION Spec
CONSTANTS
    MaxLive = 2
    MaxIn = 2
    Owners = {"A", "B", "Acc", "neg"}
    WHash = 32
    WInt = 4
    WAmt = 8
    WS = 32
    Order <- RealOrder
    HalfOrder <- RealHalfOrder
    SAdd <- RealSAdd
    SMul <- RealSMul
    SNeg <- RealSNeg
    SInv <- RealSInv
    SRed <- RealSRed
    PG <- RealPG
    PAdd <- RealPAdd
    PNeg <- RealPNeg
    PMul <- RealPMul
    POn <- RealPOn
    PLift <- RealPLift
    Sha256 <- RealSha256
    Sha512 <- RealSha512
    Ripemd160 <- RealRipemd160
    HmacSha256 <- RealHmacSha256
    HmacSha512 <- RealHmacSha512
    Pbkdf2 <- RealPbkdf2Sha512
    Text <- Ascii
    BigDigits <- RealBigDigits
    BigBytes <- RealBigBytes
INVARIANTS Reads Parts OnlyOwn Rest Commute Counts Fee Export
CHECK_DEADLOCK FALSE
